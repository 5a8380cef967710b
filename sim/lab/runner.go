package lab

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"sim/plan"
)

type Result = plan.Result
type Event = plan.Event

// Runner executes plans in child processes, one simulated world each.
type Runner struct {
	Bin  string // simchild
	Base string // scratch parent, on a memory file system
	dir  string
	Runs int
	Wall time.Duration
}

var mapped = regexp.MustCompile(`0x7[0-9a-f]{11}\b`)

const wallLimit = 100 * time.Second

func scratchBase() string {
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		var fs syscall.Statfs_t
		if syscall.Statfs("/dev/shm", &fs) == nil && fs.Bavail*uint64(fs.Bsize) > 256<<20 {
			return "/dev/shm"
		}
	}
	return "/tmp"
}

func (r *Runner) Close() {
	if r.dir != "" && strings.HasPrefix(filepath.Base(r.dir), "gs-") {
		os.RemoveAll(r.dir)
	}
}

// Run executes one plan. The error is about the machinery, never about Ginkgo,
// except for a child that hangs or dies, which the caller judges.
func (r *Runner) Run(p *Plan) (*Result, error) {
	res, err := r.run(p)
	if err != nil {
		return res, err
	}
	for _, q := range companions(p, res) {
		t, err := r.run(q)
		if err != nil {
			return nil, err
		}
		res.Twins = append(res.Twins, t)
		res.WallUs += t.WallUs
	}
	return res, nil
}

func (r *Runner) run(p *Plan) (*Result, error) {
	p.Derive()
	if r.dir == "" {
		if r.Base == "" {
			r.Base = scratchBase()
		}
		n := os.Getpid() % 9999
		for i := 0; ; i++ {
			d := filepath.Join(r.Base, fmt.Sprintf("gs-%04d%03d", n, i))
			if err := os.Mkdir(d, 0o700); err == nil {
				r.dir = d
				break
			}
			if i > 900 {
				n, i = (n+7)%9999, 0
			}
		}
	}
	top := filepath.Join(r.dir, "w")
	if err := os.RemoveAll(top); err != nil {
		return nil, err
	}
	if err := os.Mkdir(top, 0o700); err != nil {
		return nil, err
	}
	b, err := json.Marshal(p)
	if err != nil {
		return nil, err
	}
	pf, rf := filepath.Join(r.dir, "plan.json"), filepath.Join(r.dir, "result.json")
	os.Remove(rf)
	if err := os.WriteFile(pf, b, 0o600); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), wallLimit)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.Bin, pf, top, rf)
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	t0 := time.Now()
	err = cmd.Run()
	wall := time.Since(t0)
	r.Runs++
	r.Wall += wall
	if ctx.Err() != nil {
		return nil, fmt.Errorf("wall: the simulated world made no end within %v of real time", wallLimit)
	}
	rb, rerr := os.ReadFile(rf)
	if err != nil || rerr != nil {
		s := eb.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		return nil, fmt.Errorf("child: %v %v: %s", err, rerr, s)
	}
	rb = bytes.ReplaceAll(rb, []byte(top), []byte("/SIM"))
	// addresses in mapped memory, which stack traces print, are the one thing the host still chooses
	rb = mapped.ReplaceAll(rb, []byte("0x7eeeeeeeeeee"))
	var res Result
	if err := json.Unmarshal(rb, &res); err != nil {
		return nil, fmt.Errorf("result: %v", err)
	}
	res.WallUs = wall.Microseconds()
	return &res, nil
}
