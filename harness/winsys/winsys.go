// Package winsys stands in for package syscall in the Windows files of the library,
// which are then built and run here: DLL calls are answered from a table of code pages.
package winsys

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"unicode/utf16"
)

// Env gives the code pages at start-up as out,in,ansi,oem.
const Env = "VERIF_CODE_PAGES"

// Pages are the code pages of the simulated system; 0 for output and input means no console.
type Pages struct{ Out, In, Ansi, Oem uint32 }

var (
	mu      sync.Mutex
	pages   Pages
	calls   [4]atomic.Int64
	unknown = map[string]int{}
)

func init() {
	f := strings.Split(os.Getenv(Env), ",")
	for i, p := range []*uint32{&pages.Out, &pages.In, &pages.Ansi, &pages.Oem} {
		if i < len(f) {
			n, _ := strconv.ParseUint(f[i], 10, 32)
			*p = uint32(n)
		}
	}
}

// Set changes the simulated system.
func Set(p Pages) { mu.Lock(); pages = p; mu.Unlock() }

// Calls tells how often the output code page was asked for, and what unknown
// functions were called.
func Calls() (out int64, other map[string]int) {
	mu.Lock()
	defer mu.Unlock()
	other = map[string]int{}
	for k, v := range unknown {
		other[k] = v
	}
	return calls[0].Load(), other
}

func call(dll, proc string) (r1, r2 uintptr, err error) {
	mu.Lock()
	defer mu.Unlock()
	dll = strings.ToLower(dll)
	if i := strings.LastIndexAny(dll, `/\`); i >= 0 {
		dll = dll[i+1:]
	}
	if strings.TrimSuffix(dll, ".dll") != "kernel32" {
		unknown[dll+"!"+proc]++
		return 0, 0, Errno(126)
	}
	i := -1
	v := uint32(0)
	switch proc {
	case "GetConsoleOutputCP":
		i, v = 0, pages.Out
	case "GetConsoleCP":
		i, v = 1, pages.In
	case "GetACP":
		i, v = 2, pages.Ansi
	case "GetOEMCP":
		i, v = 3, pages.Oem
	default:
		unknown[proc]++
		return 0, 0, Errno(127)
	}
	calls[i].Add(1)
	if v == 0 {
		return 0, 0, Errno(6) // invalid handle
	}
	return uintptr(v), 0, Errno(0)
}

type (
	Errno  = syscall.Errno
	Handle uintptr
)

var (
	procMu sync.Mutex
	procs  [][2]string
)

func address(dll, name string) uintptr {
	procMu.Lock()
	defer procMu.Unlock()
	for i, p := range procs {
		if p == [2]string{dll, name} {
			return uintptr(i + 1)
		}
	}
	procs = append(procs, [2]string{dll, name})
	return uintptr(len(procs))
}

func byAddress(a uintptr) (uintptr, uintptr, error) {
	procMu.Lock()
	p := procs[a-1]
	procMu.Unlock()
	return call(p[0], p[1])
}

type LazyDLL struct{ Name string }

func NewLazyDLL(name string) *LazyDLL            { return &LazyDLL{name} }
func (d *LazyDLL) NewProc(name string) *LazyProc { return &LazyProc{Name: name, dll: d.Name} }
func (d *LazyDLL) Load() error                   { return nil }
func (d *LazyDLL) Handle() uintptr               { return 1 }

type LazyProc struct{ Name, dll string }

func (p *LazyProc) Find() error   { return nil }
func (p *LazyProc) Addr() uintptr { return address(p.dll, p.Name) }
func (p *LazyProc) Call(a ...uintptr) (r1, r2 uintptr, lastErr error) {
	return call(p.dll, p.Name)
}

type DLL struct {
	Name   string
	Handle Handle
}

func LoadDLL(name string) (*DLL, error) { return &DLL{name, 1}, nil }
func MustLoadDLL(name string) *DLL      { return &DLL{name, 1} }
func (d *DLL) FindProc(name string) (*Proc, error) {
	return &Proc{Dll: d, Name: name}, nil
}
func (d *DLL) MustFindProc(name string) *Proc { return &Proc{Dll: d, Name: name} }
func (d *DLL) Release() error                 { return nil }

type Proc struct {
	Dll  *DLL
	Name string
}

func (p *Proc) Addr() uintptr { return address(p.Dll.Name, p.Name) }
func (p *Proc) Call(a ...uintptr) (r1, r2 uintptr, lastErr error) {
	return call(p.Dll.Name, p.Name)
}

func errno(err error) Errno {
	e, _ := err.(Errno)
	return e
}

func Syscall(trap, nargs, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	r1, r2, e := byAddress(trap)
	return r1, r2, errno(e)
}

func SyscallN(trap uintptr, args ...uintptr) (r1, r2 uintptr, err Errno) {
	r1, r2, e := byAddress(trap)
	return r1, r2, errno(e)
}

func LoadLibrary(name string) (Handle, error) {
	return Handle(address(name, "")), nil
}

func GetProcAddress(h Handle, name string) (uintptr, error) {
	procMu.Lock()
	d := procs[h-1][0]
	procMu.Unlock()
	return address(d, name), nil
}

func FreeLibrary(Handle) error { return nil }

func Getenv(key string) (string, bool) { return os.LookupEnv(key) }

func UTF16PtrFromString(s string) (*uint16, error) {
	if strings.IndexByte(s, 0) >= 0 {
		return nil, fmt.Errorf("NUL in %q", s)
	}
	u := append(utf16.Encode([]rune(s)), 0)
	return &u[0], nil
}
