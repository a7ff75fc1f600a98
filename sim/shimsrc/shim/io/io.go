// Package io is package io, with a pipe whose two ends are scheduled by the simulator.
package io

import (
	"io"

	"vsim/shimsrc/shim/sync"
)

const (
	SeekStart = io.SeekStart
	SeekCurrent = io.SeekCurrent
	SeekEnd = io.SeekEnd
)

var (
	EOF = io.EOF
	ErrClosedPipe = io.ErrClosedPipe
	ErrNoProgress = io.ErrNoProgress
	ErrShortBuffer = io.ErrShortBuffer
	ErrShortWrite = io.ErrShortWrite
	ErrUnexpectedEOF = io.ErrUnexpectedEOF
	Discard = io.Discard
	Copy = io.Copy
	CopyBuffer = io.CopyBuffer
	CopyN = io.CopyN
	ReadAll = io.ReadAll
	ReadAtLeast = io.ReadAtLeast
	ReadFull = io.ReadFull
	WriteString = io.WriteString
	NopCloser = io.NopCloser
	LimitReader = io.LimitReader
	MultiReader = io.MultiReader
	TeeReader = io.TeeReader
	NewSectionReader = io.NewSectionReader
	MultiWriter = io.MultiWriter
	NewOffsetWriter = io.NewOffsetWriter
)

type (
	ByteReader = io.ByteReader
	ByteScanner = io.ByteScanner
	ByteWriter = io.ByteWriter
	Closer = io.Closer
	LimitedReader = io.LimitedReader
	OffsetWriter = io.OffsetWriter
	ReadCloser = io.ReadCloser
	ReadSeekCloser = io.ReadSeekCloser
	ReadSeeker = io.ReadSeeker
	ReadWriteCloser = io.ReadWriteCloser
	ReadWriteSeeker = io.ReadWriteSeeker
	ReadWriter = io.ReadWriter
	Reader = io.Reader
	ReaderAt = io.ReaderAt
	ReaderFrom = io.ReaderFrom
	RuneReader = io.RuneReader
	RuneScanner = io.RuneScanner
	SectionReader = io.SectionReader
	Seeker = io.Seeker
	StringWriter = io.StringWriter
	WriteCloser = io.WriteCloser
	WriteSeeker = io.WriteSeeker
	Writer = io.Writer
	WriterAt = io.WriterAt
	WriterTo = io.WriterTo
)

type pipe struct {
	mu         sync.Mutex // one writer at a time
	cond       *sync.Cond
	data       []byte
	writing    bool
	rerr, werr error // how the ends were closed
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = sync.NewCond(new(sync.Mutex))
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.cond.L.Lock()
	defer p.cond.L.Unlock()
	for {
		switch {
		case p.rerr != nil:
			return 0, io.ErrClosedPipe
		case p.writing:
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.writing = false
			}
			p.cond.Broadcast()
			return n, nil
		case p.werr != nil:
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.mu.Lock()
	defer p.mu.Unlock()
	p.cond.L.Lock()
	defer p.cond.L.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.data, p.writing = b, true
	p.cond.Broadcast()
	for p.writing && p.rerr == nil && p.werr == nil {
		p.cond.Wait()
	}
	n := len(b) - len(p.data)
	if p.writing {
		p.writing, p.data = false, nil
		if p.werr != nil {
			return n, io.ErrClosedPipe
		}
		return n, p.rerr
	}
	return n, nil
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.cond.L.Lock()
	defer r.p.cond.L.Unlock()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.cond.L.Lock()
	defer w.p.cond.L.Unlock()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.cond.Broadcast()
	return nil
}
