package verifrig

import (
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"strings"
	"syscall"
	"unsafe"
)

// The server runs below a supervisor in a session of its own, so that whatever
// signals it sends to its parent or process group reach nothing else.
func init() {
	if os.Getenv("VERIF_RIG_SUPERVISE") == "" {
		return
	}
	runtime.LockOSThread()
	signal.Ignore(syscall.SIGTSTP, syscall.SIGTTOU, syscall.SIGTTIN, syscall.SIGHUP, syscall.SIGINT, syscall.SIGQUIT)
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_RIG_") {
			env = append(env, e)
		}
	}
	c := exec.Command(os.Args[1], os.Args[2:]...)
	c.Env = env
	c.Stdin, c.Stdout, c.Stderr = os.Stdin, os.Stdout, os.Stderr
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	report := os.NewFile(3, "report")
	err := c.Start()
	if err != nil {
		fmt.Fprintln(os.Stderr, "supervisor:", err)
		os.Exit(1)
	}
	fmt.Fprintln(report, c.Process.Pid)
	report.Close()
	if err := c.Wait(); err != nil {
		if e, ok := err.(*exec.ExitError); ok && e.ExitCode() > 0 {
			os.Exit(e.ExitCode())
		}
		os.Exit(128)
	}
	os.Exit(0)
}

func openPty() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	if err != nil {
		return nil, nil, err
	}
	var n uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil, nil, e
	}
	var unlock int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); e != 0 {
		return nil, nil, e
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	return
}
