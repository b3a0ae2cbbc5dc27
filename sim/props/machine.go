package props

import (
	"os/exec"
	"runtime"
	"strconv"
	"syscall"
	"unsafe"
)

// A machine is what a child process sees of the computer it runs on. Nothing
// a circuit compiles to may depend on it.
type machine struct {
	Procs int `json:"procs,omitempty"` // GOMAXPROCS
	GC    int `json:"gc,omitempty"`    // GOGC
	CPUs  int `json:"cpus,omitempty"`  // CPUs it may use, 0: all
}

func machineOf(h uint64) machine {
	h = h * 0x9E3779B97F4A7C15
	return machine{
		Procs: 1 + int(h>>60)%8,
		GC:    []int{200, 200, 200, 10}[h>>50&3],
		CPUs:  []int{0, 0, 1, 2, 3, 0, 0, 0}[h>>40&7],
	}
}

func (m machine) env() []string {
	if m.Procs == 0 {
		m.Procs = 2
	}
	if m.GC == 0 {
		m.GC = 200
	}
	return []string{"GOMAXPROCS=" + strconv.Itoa(m.Procs), "GOGC=" + strconv.Itoa(m.GC)}
}

// start starts cmd on the CPUs of the machine; the new process inherits the
// affinity of the thread that starts it.
func (m machine) start(cmd *exec.Cmd) error {
	if m.CPUs > 0 {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		var old, few [16]uint64
		n, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, unsafe.Sizeof(old), uintptr(unsafe.Pointer(&old)))
		if e == 0 && n > 0 {
			left := m.CPUs
			for i := 0; i < len(old)*64 && left > 0; i++ {
				if old[i/64]>>(i%64)&1 == 1 {
					few[i/64] |= 1 << (i % 64)
					left--
				}
			}
			if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(few), uintptr(unsafe.Pointer(&few))); e == 0 {
				defer syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(old), uintptr(unsafe.Pointer(&old)))
			}
		}
	}
	return cmd.Start()
}
