package world

import (
	"fmt"
	"net"
	"syscall"
	"time"
)

// Silent returns the address of a listener that takes connections and says nothing
func Silent() (addr string, close func(), err error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", nil, err
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b := make([]byte, 4096)
				for {
					if _, err := c.Read(b); err != nil {
						_ = c.Close()
						return
					}
				}
			}()
		}
	}()
	return l.Addr().String(), func() { _ = l.Close() }, nil
}

// NoAccept returns the address of a listener whose connections are never established
func NoAccept() (addr string, done func(), err error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		return "", nil, err
	}
	var conns []net.Conn
	done = func() {
		for _, c := range conns {
			_ = c.Close()
		}
		_ = syscall.Close(fd)
	}
	if err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err == nil {
		err = syscall.Listen(fd, 0)
	}
	if err != nil {
		done()
		return "", nil, err
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		done()
		return "", nil, err
	}
	addr = fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	failed := 0
	for n := 0; n < 50 && failed < 2; n++ {
		c, err := net.DialTimeout("tcp", addr, 300*time.Millisecond)
		if err != nil {
			failed++
			continue
		}
		conns = append(conns, c)
	}
	if failed < 2 {
		done()
		return "", nil, fmt.Errorf("connections to %s are still established", addr)
	}
	return addr, done, nil
}
