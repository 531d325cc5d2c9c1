package h

import (
	"bytes"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

type RunOpt struct {
	Dir   string // working directory (default: an empty scratch directory)
	Stdin string
	Env   []string
	CPU   uint64 // seconds
	Args  []string
	Root  bool          // keep root (only for scripts that touch nothing)
	Wall  time.Duration // give up after this time; the result is then marked TooMuch and decides nothing
}

type RunResult struct {
	Stdout, Stderr string
	Status         int
	Signal         string // non-empty: killed
	TooMuch        bool
}

const nobody = 65534

var canDrop = -1

type capped struct {
	b    bytes.Buffer
	max  int
	over bool
}

func (c *capped) Write(p []byte) (int, error) {
	if c.b.Len()+len(p) > c.max {
		c.over = true
		return 0, io.ErrShortWrite
	}
	return c.b.Write(p)
}

func prlimit(pid int, res int, v uint64) {
	lim := syscall.Rlimit{Cur: v, Max: v}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), uintptr(res), uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
}

// cpuTicks is the CPU time (in hundredths of a second) of a process and of the
// children it has waited for.
func cpuTicks(pid int) uint64 {
	b, err := os.ReadFile("/proc/" + strconv.Itoa(pid) + "/stat")
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if i < 0 || len(f) < 15 {
		return 0
	}
	var sum uint64
	for _, x := range f[11:15] {
		n, _ := strconv.ParseUint(x, 10, 64)
		sum += n
	}
	return sum
}

// Exec runs a program with resource limits, as an unprivileged user.
func Exec(path string, args []string, o RunOpt) RunResult {
	if o.CPU == 0 {
		o.CPU = 4
	}
	if o.Dir == "" {
		o.Dir = filepath.Join(Scratch(), "cwd")
		os.MkdirAll(o.Dir, 0o755)
	}
	if canDrop < 0 {
		canDrop = 0
		if os.Getuid() == 0 {
			c := exec.Command("/bin/true")
			c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}
			if c.Run() == nil {
				canDrop = 1
			}
		}
	}
	for attempt := 0; ; attempt++ {
		c := exec.Command(path, args...)
		c.Dir = o.Dir
		c.Env = append([]string{"PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C", "HOME=/nonexistent"}, o.Env...)
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if canDrop == 1 && !o.Root {
			c.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}
		}
		if o.Stdin != "" {
			c.Stdin = strings.NewReader(o.Stdin)
		}
		so, se := &capped{max: 1 << 20}, &capped{max: 1 << 18}
		c.Stdout, c.Stderr = so, se
		c.WaitDelay = 3 * time.Second
		if err := c.Start(); err != nil {
			if attempt < 5 {
				time.Sleep(200 * time.Millisecond)
				continue
			}
			Infra("cannot start %s: %v", path, err)
		}
		pid := c.Process.Pid
		prlimit(pid, syscall.RLIMIT_CPU, o.CPU)
		prlimit(pid, syscall.RLIMIT_AS, 1<<31)
		prlimit(pid, syscall.RLIMIT_FSIZE, 16<<20)
		// Wall-clock is only a backstop against a machine that stopped making
		// progress; it never decides a case.
		wall := 240 * time.Second
		if o.Wall > 0 {
			wall = o.Wall
		}
		timer := time.AfterFunc(wall, func() { syscall.Kill(-pid, syscall.SIGABRT) })
		// RLIMIT_CPU counts each process alone: a script that loops and forks a
		// subshell per round never reaches it. Its children's time is added up
		// here (the kernel's own count of CPU time, not wall-clock).
		stop := make(chan struct{})
		done := make(chan struct{})
		go func() {
			defer close(done)
			tick := time.NewTicker(500 * time.Millisecond)
			defer tick.Stop()
			for {
				select {
				case <-stop:
					return
				case <-tick.C:
					if cpuTicks(pid) > 3*o.CPU*100 {
						syscall.Kill(-pid, syscall.SIGXCPU)
						return
					}
				}
			}
		}()
		err := c.Wait()
		close(stop)
		<-done
		timer.Stop()
		syscall.Kill(-pid, syscall.SIGKILL)
		r := RunResult{Stdout: so.b.String(), Stderr: se.b.String(), TooMuch: so.over || se.over}
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() {
				r.Signal = ws.Signal().String()
				if ws.Signal() == syscall.SIGABRT && o.Wall > 0 {
					r.TooMuch = true
				} else if ws.Signal() == syscall.SIGABRT {
					Infra("script made no progress for 240 s of wall-clock time")
				}
			}
			r.Status = ws.ExitStatus()
		}
		if strings.Contains(r.Stderr, "fork:") || strings.Contains(r.Stderr, "annot allocate memory") {
			if attempt < 5 {
				time.Sleep(500 * time.Millisecond)
				continue
			}
			Infra("bash cannot fork: %s", clip(r.Stderr, 300))
		}
		return r
	}
}

// Bash runs a script text.
func Bash(script string, o RunOpt) RunResult {
	p := filepath.Join(Scratch(), "script.sh")
	if err := os.WriteFile(p, []byte(script), 0o644); err != nil {
		Infra("%v", err)
	}
	return Exec("/bin/bash", append([]string{p}, o.Args...), o)
}
