package j8a

// Stand-in for compress/gzip used by the symbolic executor only (natively the real library runs): an
// invertible framing that starts with the gzip magic, detects truncation and rejects anything unframed.

import (
	"bytes"
	"compress/gzip"
	"errors"
	"io"
	"io/ioutil"
)

type vfGzW struct {
	dst    io.Writer
	buf    []byte
	closed bool
}

type vfGzR struct {
	data  []byte
	pos   int
	end   error
	rest  []byte
	multi bool
	bad   bool
}

// vfGzSmall is a real gzip stream, of "{}".
var vfGzSmall = []byte{31, 139, 8, 0, 0, 0, 0, 0, 0, 255, 170, 174, 5, 4, 0, 0, 255, 255, 67, 191, 166, 163, 2, 0, 0, 0}

var vfGzWs = map[*gzip.Writer]*vfGzW{}
var vfGzRs = map[*gzip.Reader]*vfGzR{}

func vfM_gzip_NewWriter(w io.Writer) *gzip.Writer {
	z := new(gzip.Writer)
	vfGzWs[z] = &vfGzW{dst: w}
	return z
}

func vfM_gzip_NewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) {
	if level < -2 || level > 9 {
		return nil, errors.New("gzip: invalid compression level")
	}
	return vfM_gzip_NewWriter(w), nil
}

func vfM_gzip_Writer_Reset(z *gzip.Writer, w io.Writer) { vfGzWs[z] = &vfGzW{dst: w} }

func vfM_gzip_Writer_Write(z *gzip.Writer, p []byte) (int, error) {
	s := vfGzWs[z]
	if s.closed {
		return 0, errors.New("gzip: write after close")
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

func vfM_gzip_Writer_Flush(z *gzip.Writer) error { return nil }

func vfM_gzip_Writer_Close(z *gzip.Writer) error {
	s := vfGzWs[z]
	if s.closed {
		return nil
	}
	s.closed = true
	n := len(s.buf)
	out := []byte{0x1f, 0x8b, 8, byte(n), byte(n >> 8), byte(n >> 16)}
	out = append(out, s.buf...)
	out = append(out, 0x55)
	_, err := s.dst.Write(out)
	return err
}

func vfM_gzip_NewReader(r io.Reader) (*gzip.Reader, error) {
	z := new(gzip.Reader)
	if err := vfM_gzip_Reader_Reset(z, r); err != nil {
		return nil, err
	}
	return z, nil
}

func vfM_gzip_Reader_Reset(z *gzip.Reader, r io.Reader) error {
	s := &vfGzR{multi: true}
	vfGzRs[z] = s
	in, err := ioutil.ReadAll(r)
	if err != nil {
		s.end = err
		return err
	}
	s.rest = in
	s.member()
	if len(in) == 0 {
		return io.EOF
	}
	if s.bad {
		return s.end
	}
	return nil
}

// member takes the next file off the input, gzip files may be written one after the other.
func (s *vfGzR) member() {
	in := s.rest
	s.data, s.pos, s.bad = nil, 0, true
	if len(in) == 0 {
		s.end = io.EOF
		return
	}
	if len(in) >= len(vfGzSmall) && bytes.Equal(in[:len(vfGzSmall)], vfGzSmall) {
		in = append([]byte{0x1f, 0x8b, 8, 2, 0, 0, '{', '}', 0x55}, in[len(vfGzSmall):]...)
	}
	if len(in) < 6 {
		s.end = io.ErrUnexpectedEOF
		return
	}
	if in[0] != 0x1f || in[1] != 0x8b || in[2] != 8 {
		s.end = gzip.ErrHeader
		return
	}
	s.bad = false
	n := int(in[3]) | int(in[4])<<8 | int(in[5])<<16
	d := in[6:]
	switch {
	case len(d) <= n:
		s.data, s.end = d, io.ErrUnexpectedEOF
	case d[n] != 0x55:
		s.data, s.end = d[:n], gzip.ErrChecksum
	default:
		s.data, s.end, s.rest = d[:n], io.EOF, d[n+1:]
	}
}

func vfM_gzip_Reader_Multistream(z *gzip.Reader, ok bool) { vfGzRs[z].multi = ok }

func vfM_gzip_Reader_Read(z *gzip.Reader, p []byte) (int, error) {
	s := vfGzRs[z]
	for s.pos >= len(s.data) {
		if s.end != io.EOF || !s.multi || len(s.rest) == 0 {
			return 0, s.end
		}
		s.member()
	}
	n := copy(p, s.data[s.pos:])
	s.pos += n
	return n, nil
}

func vfM_gzip_Reader_Close(z *gzip.Reader) error { return nil }

// vfZip and vfUnzip are the reference codec: the library itself, never the code under test.
func vfZip(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

func vfUnzip(b []byte) ([]byte, bool) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	d, err := ioutil.ReadAll(r)
	return d, err == nil
}
