package main

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	vgrpc "github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/server/httprest"
)

// vdbProc is a running server program.
type vdbProc struct {
	cmd      *exec.Cmd
	restAddr string
	grpcAddr string
	out      lockedBuf
	done     chan struct{}
}

var (
	portMu   sync.Mutex
	portNext int
)

// freePort finds a port that nothing listens on, outside the range that connections are made from, and never gives it out again.
func freePort() string {
	portMu.Lock()
	defer portMu.Unlock()
	if portNext == 0 {
		portNext = 10000 + os.Getpid()%97*200
	}
	for try := 0; try < 20000; try++ {
		portNext++
		if portNext >= 30000 {
			portNext = 10000
		}
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", portNext))
		if err != nil {
			continue
		}
		l.Close()
		return l.Addr().String()
	}
	panic("no free port")
}

func listening(addr string) bool {
	network := "tcp"
	if strings.HasPrefix(addr, "/") {
		network = "unix"
	}
	c, err := net.DialTimeout(network, addr, 2*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// spawnVDB starts the server program with a configuration.
func spawnVDB(conf string, env ...string) *vdbProc {
	bin := os.Getenv("VDBSERVER")
	if bin == "" {
		panic("VDBSERVER is not set")
	}
	f, err := os.CreateTemp("", "vdbconf")
	if err != nil {
		panic(err)
	}
	f.WriteString(conf)
	f.Close()
	return spawnVDBFile(f.Name(), env...)
}

func spawnVDBFile(path string, env ...string) *vdbProc {
	return spawnVDBArgs(filepath.Dir(path), []string{path}, env...)
}

// spawnVDBArgs starts it in a directory with arguments.
func spawnVDBArgs(dir string, args []string, env ...string) *vdbProc {
	p := &vdbProc{done: make(chan struct{})}
	p.cmd = exec.Command(os.Getenv("VDBSERVER"), args...)
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), env...)
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := startCmd(p.cmd); err != nil {
		panic(err)
	}
	go func() {
		p.cmd.Wait()
		close(p.done)
	}()
	return p
}

func (p *vdbProc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *vdbProc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// startVDB starts the server program on free ports and waits until it serves. If it doesn't, that's reported.
func startVDB(r *R, conf, dir string, rest, grpc bool) *vdbProc {
	for try := 0; ; try++ {
		c := conf + fmt.Sprintf("bolt_db_path: %q\n", dir)
		ra, ga := freePort(), freePort()
		if rest {
			c += fmt.Sprintf("rest_server: true\nrest_listen_bind: %q\n", ra)
		}
		if grpc {
			c += fmt.Sprintf("grpc_server: true\ngrpc_listen_protocol: \"tcp\"\ngrpc_listen_bind: %q\n", ga)
		}
		p := spawnVDB(c)
		p.restAddr, p.grpcAddr = ra, ga
		up := false
		for i := 0; i < 3000 && !up && !p.exited(); i++ {
			up = (!rest || listening(ra)) && (!grpc || listening(ga))
			if !up {
				time.Sleep(10 * time.Millisecond)
			}
		}
		if up {
			return p
		}
		out := p.out.String()
		p.kill()
		if try < 5 && strings.Contains(out, "address already in use") {
			continue
		}
		r.Failf("the server program doesn't serve with configuration\n%s\nit says:\n%s", c, out)
		return nil
	}
}

func (p *vdbProc) rest() Svc {
	return (&httprest.Client{BaseURL: "http://" + p.restAddr, HTTPClient: &http.Client{Transport: &http.Transport{}}}).MustDial()
}

func (p *vdbProc) grpc() Svc {
	return (&vgrpc.Client{Address: p.grpcAddr, NoGrpcSecurity: true}).MustDial()
}
