package verifrig

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"syscall"
	"time"
	"unsafe"
)

// Program is a running client program (a player, an info client).
type Program struct {
	cmd  *exec.Cmd
	out  lockedBuffer
	tty  *os.File
	end  *os.File // of the terminal, which stays open: its mode is what it was left in
	mode string
	done chan struct{}
	err  error
}

// Spawn runs a program; with a width, on a terminal of its own.
func Spawn(bin, dir string, env []string, w, h int, args ...string) (*Program, error) {
	p := &Program{done: make(chan struct{})}
	p.cmd = exec.Command(bin, args...)
	p.cmd.Dir = dir
	p.cmd.Env = append(append(os.Environ(), "TERM=xterm", "LANG=C.UTF-8", "LC_ALL=C.UTF-8"), env...)
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setsid: true}
	var slave *os.File
	if w > 0 {
		var err error
		if p.tty, slave, err = openPty(); err != nil {
			return nil, err
		}
		p.size(w, h)
		if fd, err := syscall.Dup(int(slave.Fd())); err == nil {
			syscall.CloseOnExec(fd)
			p.end = os.NewFile(uintptr(fd), "terminal")
		}
		p.mode = p.TTYMode()
		p.cmd.Stdin, p.cmd.Stdout, p.cmd.Stderr = slave, slave, slave
		p.cmd.SysProcAttr.Setctty = true
		p.cmd.SysProcAttr.Ctty = 0
		go io.Copy(&p.out, p.tty)
	}
	err := p.cmd.Start()
	if slave != nil {
		slave.Close()
	}
	if err != nil {
		return nil, err
	}
	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
	return p, nil
}

func (p *Program) size(w, h int) {
	ws := struct{ row, col, x, y uint16 }{uint16(h), uint16(w), 0, 0}
	syscall.Syscall(syscall.SYS_IOCTL, p.tty.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
}

// Resize its terminal.
func (p *Program) Resize(w, h int) { p.size(w, h) }

// TTYMode of its terminal.
func (p *Program) TTYMode() string {
	var b [64]byte
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, p.tty.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&b))); e != 0 {
		return ""
	}
	return fmt.Sprintf("%x", b[:17])
}

// Found is the mode its terminal had before.
func (p *Program) Found() string { return p.mode }

// Type on its terminal.
func (p *Program) Type(b []byte) { p.tty.Write(b) }

// Alive tells whether it is running.
func (p *Program) Alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

// Output is everything it has written.
func (p *Program) Output() string { return p.out.String() }

// Crash is what it wrote when it crashed.
func (p *Program) Crash() string {
	b := []byte(p.Output())
	for _, k := range []string{"panic: ", "fatal error: ", "runtime: "} {
		if i := bytes.Index(b, []byte(k)); i >= 0 {
			if b = b[i:]; len(b) > 4000 {
				b = b[:4000]
			}
			return string(b)
		}
	}
	return ""
}

// ExitCode it ended with.
func (p *Program) ExitCode() int { return p.cmd.ProcessState.ExitCode() }

// Pid of it.
func (p *Program) Pid() int { return p.cmd.Process.Pid }

// Signal it.
func (p *Program) Signal(s syscall.Signal) {
	if p.Alive() {
		p.cmd.Process.Signal(s)
	}
}

// Exited waits for its end.
func (p *Program) Exited(patience time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(patience):
		return false
	}
}

// Kill ends it.
func (p *Program) Kill() {
	p.Signal(syscall.SIGKILL)
	<-p.done
	if p.tty != nil {
		p.tty.Close()
		if p.end != nil {
			p.end.Close()
		}
	}
}
