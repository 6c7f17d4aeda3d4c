package main

import "io"

// chunks is a reader that delivers its data in small pieces.  mode 0 gives
// everything at once; n > 0 gives at most n bytes per read; a negative mode
// gives at most -n bytes and returns io.EOF together with the last of them;
// modes of 100 and more also return (0, nil) before each piece.
type chunks struct {
	b     []byte
	n     int
	eof   bool
	lazy  bool
	dozed bool
	read  int
}

func newChunks(b []byte, mode int) *chunks {
	c := &chunks{b: b, n: mode}
	if mode < 0 {
		c.n, c.eof = -mode, true
	}
	if mode >= 100 {
		c.n, c.lazy = mode-99, true
	}
	return c
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if c.lazy && !c.dozed {
		c.dozed = true
		return 0, nil
	}
	c.dozed = false
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if c.n > 0 && n > c.n {
		n = c.n
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	c.read += n
	if c.eof && len(c.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// failing fails after n bytes, for good or once.
type failing struct {
	r    io.Reader
	n    int
	once bool
	read int
}

func (f *failing) Read(p []byte) (int, error) {
	if f.n < 0 {
		return f.r.Read(p)
	}
	if f.n == 0 {
		if f.once {
			f.n = -1
		}
		return 0, broken(f.read)
	}
	if len(p) > f.n {
		p = p[:f.n]
	}
	n, err := f.r.Read(p)
	f.n -= n
	f.read += n
	return n, err
}
