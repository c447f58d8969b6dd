// Package stream has readers that deliver data in every way the io.Reader
// contract allows.
package stream

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"

	"vharness/pbt"
)

// ErrBroken is the error of a broken stream.
var ErrBroken = errors.New("stream broken")

// failures are the ways a stream fails. Only io.EOF itself is a regular end.
var failures = []error{ErrBroken, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, os.ErrClosed, context.Canceled}

// Failure draws the error of a stream that fails.
func Failure(t *pbt.T) error { return failures[t.Weighted(5, 2, 1, 1, 1, 1)] }

// Reader delivers Data.
type Reader struct {
	Data  []byte
	Sizes []int // chunk sizes, cyclic; none means as asked
	Eager bool  // the last bytes come together with the end
	Empty bool  // now and then a read gives nothing
	End   error // how the stream ends
	Taken int   // bytes delivered so far
	calls int
}

// New draws a style of delivery for data.
func New(t *pbt.T, data []byte) *Reader {
	s := &Reader{Data: data, End: io.EOF}
	switch t.Weighted(3, 2, 2) {
	case 1:
		s.Sizes = []int{1}
	case 2:
		s.Sizes = []int{1 + t.Intn(3), 1 + t.Intn(7), 1 + t.Intn(300)}
	}
	s.Eager = t.P(1, 3)
	s.Empty = t.P(1, 4)
	return s
}

func (s *Reader) Read(p []byte) (int, error) {
	s.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if s.Empty && s.calls%3 == 1 {
		return 0, nil
	}
	if s.Taken == len(s.Data) {
		return 0, s.End
	}
	n := len(p)
	if len(s.Sizes) > 0 {
		if k := s.Sizes[s.calls%len(s.Sizes)]; k < n {
			n = k
		}
	}
	n = copy(p[:n], s.Data[s.Taken:])
	s.Taken += n
	if s.Eager && s.Taken == len(s.Data) {
		return n, s.End
	}
	return n, nil
}

func (s *Reader) String() string {
	end := ""
	if s.End != io.EOF {
		end = ", ends in a read error"
	}
	return fmt.Sprintf("chunks %v, end together with the last bytes %v, empty reads %v%s", s.Sizes, s.Eager, s.Empty, end)
}
