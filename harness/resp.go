package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Reply is one parsed RESP reply. T is one of + - : $ *
type Reply struct {
	T    byte
	S    string
	I    int64
	A    []Reply
	Null bool
}

func (r Reply) IsErr() bool { return r.T == '-' }

func (r Reply) String() string {
	switch r.T {
	case '+', '-':
		return string(r.T) + clip(r.S)
	case ':':
		return ":" + strconv.FormatInt(r.I, 10)
	case '$':
		if r.Null {
			return "(null)"
		}
		return strconv.Quote(clip(r.S))
	case '*':
		if r.Null {
			return "(null array)"
		}
		var sb strings.Builder
		sb.WriteString("[")
		for i, e := range r.A {
			if i > 0 {
				sb.WriteString(" ")
			}
			if i >= 40 {
				fmt.Fprintf(&sb, "... %d elements", len(r.A))
				break
			}
			sb.WriteString(e.String())
		}
		sb.WriteString("]")
		return sb.String()
	}
	return "(none)"
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:100] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

type protoError struct{ msg string }

func (e protoError) Error() string { return "malformed reply: " + e.msg }

func readLine(r *bufio.Reader) (string, error) {
	b, err := r.ReadBytes('\n')
	if err != nil {
		if len(b) > 0 && errors.Is(err, io.EOF) {
			return "", io.ErrUnexpectedEOF
		}
		return "", err
	}
	if len(b) < 2 || b[len(b)-2] != '\r' {
		return "", protoError{fmt.Sprintf("line %q does not end in CRLF", clip(string(b)))}
	}
	return string(b[:len(b)-2]), nil
}

func readReply(r *bufio.Reader) (Reply, error) { return readReplyDepth(r, 0) }

func readReplyDepth(r *bufio.Reader, depth int) (Reply, error) {
	line, err := readLine(r)
	if err != nil {
		return Reply{}, err
	}
	if line == "" {
		return Reply{}, protoError{"empty line"}
	}
	rep := Reply{T: line[0]}
	num := func() (int64, error) {
		n, err := strconv.ParseInt(line[1:], 10, 64)
		if err != nil {
			return 0, protoError{fmt.Sprintf("bad number in %q", clip(line))}
		}
		return n, nil
	}
	switch rep.T {
	case '+', '-':
		rep.S = line[1:]
		if strings.ContainsAny(rep.S, "\r\n") {
			return rep, protoError{fmt.Sprintf("line break inside %q", clip(line))}
		}
	case ':':
		if rep.I, err = num(); err != nil {
			return rep, err
		}
	case '$':
		n, err := num()
		if err != nil {
			return rep, err
		}
		if n == -1 {
			rep.Null = true
			return rep, nil
		}
		if n < 0 || n > 1<<30 {
			return rep, protoError{fmt.Sprintf("bad bulk length in %q", line)}
		}
		buf := make([]byte, n+2)
		if _, err := io.ReadFull(r, buf); err != nil {
			return rep, err
		}
		if buf[n] != '\r' || buf[n+1] != '\n' {
			return rep, protoError{fmt.Sprintf("bulk of %d bytes is not followed by CRLF", n)}
		}
		rep.S = string(buf[:n])
	case '*':
		n, err := num()
		if err != nil {
			return rep, err
		}
		if n == -1 {
			rep.Null = true
			return rep, nil
		}
		if n < 0 || n > 1<<26 || depth > 3 {
			return rep, protoError{fmt.Sprintf("bad array length in %q", line)}
		}
		for i := int64(0); i < n; i++ {
			e, err := readReplyDepth(r, depth+1)
			if err != nil {
				return rep, err
			}
			rep.A = append(rep.A, e)
		}
	default:
		return rep, protoError{fmt.Sprintf("unknown type byte in %q", clip(line))}
	}
	return rep, nil
}

func encode(args ...string) []byte {
	var b bytes.Buffer
	encodeTo(&b, args)
	return b.Bytes()
}

func encodeTo(b *bytes.Buffer, args []string) {
	fmt.Fprintf(b, "*%d\r\n", len(args))
	for _, a := range args {
		fmt.Fprintf(b, "$%d\r\n%s\r\n", len(a), a)
	}
}

const replyTimeout = 60 * time.Second

// Client is a connection to the server under test.
type Client struct {
	c net.Conn
	r *bufio.Reader
}

func dial(addr string) (*Client, error) {
	c, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return nil, err
	}
	return &Client{c, newReader(c)}, nil
}

func (c *Client) Close() { c.c.Close() }

func (c *Client) Raw(b []byte) error {
	c.c.SetWriteDeadline(time.Now().Add(replyTimeout))
	_, err := c.c.Write(b)
	return err
}

func (c *Client) Read() (Reply, error) {
	c.c.SetReadDeadline(time.Now().Add(replyTimeout))
	return readReply(c.r)
}

func (c *Client) Do(args ...string) (Reply, error) {
	if err := c.Raw(encode(args...)); err != nil {
		return Reply{}, err
	}
	return c.Read()
}

// Pipe sends the commands in one go and reads all replies; reading goes on while writing.
func (c *Client) Pipe(cmds [][]string) ([]Reply, error) {
	var b bytes.Buffer
	for _, cmd := range cmds {
		encodeTo(&b, cmd)
	}
	return c.PipeRaw([][]byte{b.Bytes()}, len(cmds), nil)
}

// PipeRaw sends the segments (calling between after each) and reads n replies.
func (c *Client) PipeRaw(segs [][]byte, n int, between func()) ([]Reply, error) {
	werr := make(chan error, 1)
	go func() {
		for _, s := range segs {
			if err := c.Raw(s); err != nil {
				werr <- err
				return
			}
			if between != nil {
				between()
			}
		}
		werr <- nil
	}()
	out := make([]Reply, 0, n)
	for i := 0; i < n; i++ {
		r, err := c.Read()
		if err != nil {
			return out, err
		}
		out = append(out, r)
	}
	return out, <-werr
}

// split cuts b into random segments.
func split(rng *rand.Rand, b []byte, max int) [][]byte {
	n := rng.Intn(max) + 1
	var out [][]byte
	for ; n > 1 && len(b) > 1; n-- {
		k := rng.Intn(len(b)-1) + 1
		if rng.Intn(3) == 0 && len(b) > 4 {
			k = rng.Intn(4) + 1
		}
		out = append(out, b[:k])
		b = b[k:]
	}
	return append(out, b)
}

// quickAck acknowledges at once what arrives, because the server neither batches its replies nor disables Nagle's algorithm.
type quickAck struct {
	net.Conn
	raw syscall.RawConn
}

func (q quickAck) arm() {
	q.raw.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.IPPROTO_TCP, 12, 1) })
}

func (q quickAck) Read(b []byte) (int, error) {
	q.arm()
	n, err := q.Conn.Read(b)
	q.arm()
	return n, err
}

func newReader(c net.Conn) *bufio.Reader {
	if t, ok := c.(*net.TCPConn); ok {
		if raw, err := t.SyscallConn(); err == nil {
			return bufio.NewReaderSize(quickAck{c, raw}, 64<<10)
		}
	}
	return bufio.NewReaderSize(c, 64<<10)
}
