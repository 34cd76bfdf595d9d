package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/qiniu/uip/db/inf"
)

// A driver is a process that runs the Rust or Java library and answers
// request lines one by one (see rustdrv/ and javadrv/).
type driver struct {
	name string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	err  *tail
	died string
}

var drivers = map[string]*driver{}

func closeDrivers() {
	for k := range drivers {
		stopDriver(k)
	}
}

func stopDriver(name string) {
	if d := drivers[name]; d != nil {
		d.in.Close()
		d.cmd.Process.Kill()
		d.cmd.Wait()
		delete(drivers, name)
	}
}

func startDriver(name string) *driver {
	if d := drivers[name]; d != nil {
		return d
	}
	bin := os.Getenv("VERIF_BIN")
	var cmd *exec.Cmd
	if bin == "" {
		harness("VERIF_BIN is not set")
	}
	env := os.Environ()
	dir := ""
	switch name {
	case "386":
		cmd = exec.Command(filepath.Join(bin, "drv386"))
		env = append(env, "GOMAXPROCS=3", "VERIF_ZONE=-11", "LC_ALL=tr_TR.UTF-8", "LANG=tr_TR.UTF-8")
		dir = "/"
	case "raw":
		cmd = exec.Command(filepath.Join(bin, "drvraw"))
		env = []string{"GOMAXPROCS=1", "GOGC=1", "VERIF_ZONE=0", "LC_ALL=C", "TMPDIR=" + os.TempDir()}
	case "asan":
		cmd = exec.Command(filepath.Join(bin, "drvasan"))
		env = append(env, "GOMAXPROCS=2", "ASAN_OPTIONS=detect_leaks=0", "VERIF_ZONE=8", "LC_ALL=zh_CN.GB18030")
	case "rust":
		cmd = exec.Command(filepath.Join(bin, "rust/debug/rustdrv"))
	case "java", "java-abroad":
		args := []string{"-Xmx768m", "-Xss1m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-UsePerfData"}
		if name == "java-abroad" {
			// another default charset, locale and time zone
			args = append(args, "-Dfile.encoding=ISO-8859-1", "-Duser.language=tr", "-Duser.country=TR", "-Duser.timezone=Pacific/Apia")
		}
		args = append(args, "--add-exports", "java.base/sun.net.util=ALL-UNNAMED", "-cp", filepath.Join(bin, "java"), "Drv")
		cmd = exec.Command("java", args...)
	}
	cmd.Env, cmd.Dir = env, dir
	// die with the worker
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	d := &driver{name: name, cmd: cmd, err: &tail{}}
	in, err := cmd.StdinPipe()
	if err != nil {
		harness("%s driver: %v", name, err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		harness("%s driver: %v", name, err)
	}
	cmd.Stderr = d.err
	if err := cmd.Start(); err != nil {
		harness("%s driver: %v", name, err)
	}
	d.in, d.out = in, bufio.NewReaderSize(out, 1<<16)
	drivers[name] = d
	return d
}

// ask sends requests and returns their answers; a driver that dies or hangs is
// a violation.
func (d *driver) ask(c *C, reqs []string) []string {
	go io.WriteString(d.in, strings.Join(reqs, "\n")+"\n")
	type ans struct {
		l   []string
		err error
	}
	done := make(chan ans, 1)
	go func() {
		var l []string
		for len(l) < len(reqs) {
			s, err := d.out.ReadString('\n')
			if err != nil {
				done <- ans{l, err}
				return
			}
			if strings.HasPrefix(s, "@") {
				l = append(l, strings.TrimSuffix(s[1:], "\n"))
			}
		}
		done <- ans{l, nil}
	}()
	pid := d.cmd.Process.Pid
	cpu0, t0 := procCPU(pid), time.Now()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case a := <-done:
			if a.err != nil {
				werr := d.cmd.Wait()
				delete(drivers, d.name)
				c.Failf("the %s process died at request %s: %v %s", d.name, clip(reqs[min(len(a.l), len(reqs)-1)], 300), werr, clip(d.err.String(), 2000))
			}
			return a.l
		case <-tick.C:
			if cpu := procCPU(pid) - cpu0; cpu > 60 {
				stopDriver(d.name)
				c.Failf("the %s library hangs: %d requests burned %.0f s of CPU", d.name, len(reqs), cpu)
			}
			if time.Since(t0) > 10*time.Minute {
				stopDriver(d.name)
				harness("%s driver: no answer", d.name)
			}
		}
	}
}

// dans is a decoded answer.
type dans struct {
	ok   bool
	info inf.IpInfo
	err  string
	raw  string
}

func (d *driver) decode(c *C, what, s string) dans {
	un := func(h string) string {
		b, err := hex.DecodeString(h)
		if err != nil {
			harness("%s driver: bad hex %q", d.name, h)
		}
		return string(b)
	}
	if s == "" {
		harness("%s driver: empty answer", d.name)
	}
	arg := ""
	if len(s) > 2 {
		arg = s[2:]
	}
	switch s[0] {
	case 'I':
		f := strings.Split(arg, ",")
		if len(f) != 8 {
			harness("%s driver: %q", d.name, s)
		}
		return dans{ok: true, info: inf.IpInfo{Country: un(f[0]), Province: un(f[1]), City: un(f[2]), District: un(f[3]), Isp: un(f[4]), Asn: un(f[5]), Continent: un(f[6]), Line: un(f[7])}, raw: s}
	case 'K', 'V':
		return dans{ok: true, raw: s}
	case 'E':
		return dans{err: un(arg), raw: s}
	case 'N':
		c.Failf("%s: the %s library returns neither a result nor an error", what, d.name)
	case 'P':
		kind := "panics"
		if strings.HasPrefix(d.name, "java") {
			kind = "throws an unchecked exception"
		}
		c.Failf("%s: the %s library %s: %s", what, d.name, kind, un(arg))
	}
	harness("%s driver: %q", d.name, s)
	return dans{}
}

func hx(b []byte) string { return hex.EncodeToString(b) }

// versionLine is what a driver's V request must return.
func versionLine(v *inf.VersionInfo, version string) string {
	var x []string
	for _, e := range v.ExtraInfo {
		x = append(x, hx([]byte(e)))
	}
	return fmt.Sprintf("V %d %d %d [%s] [%s] [%s] %v %v", v.IpType, v.Count, v.Build, hx([]byte(version)), hx([]byte("CN")), strings.Join(x, ","), v.IpType&1 != 0, v.IpType&2 != 0)
}
