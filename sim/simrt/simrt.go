// Package simrt is the cooperative scheduler behind the yield points that the
// build overlay inserts into the code under test. Exactly one task runs at a
// time; at every yield point a seeded generator decides who continues.
package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// Killed is the panic value of a task aborted at a yield point.
type Killed struct{}

type task struct {
	id      int
	resume  chan struct{}
	holds   int
	done    bool
	blocked bool
	steps   int64
	killAt  int64
	parent  int
	root    int // the task the scenario spawned
}

// Sched is one simulation.
type Sched struct {
	rng       uint64
	switchPct uint64 // chance in 1/1024 of a switch at a yield point
	tasks     []*task
	cur       *task
	live      int
	Steps     int64
	Switches  int64
	Trace     uint64
	idle      int
	end       chan struct{}
	Deadlock  bool
	Kills     int64
	MaxSteps  int64
	Overrun   bool
	panics    map[int]string
	Mapseed   uint64
	Hook      func(root int) // called whenever a task of that family goes on
}

var sched *Sched

var process int64 = 1

// Process numbers the simulated processes.
func Process() int64 { return process }

// NewProcess begins another process: locks, pools and the like of the earlier
// one are gone.
func NewProcess() { process++ }

// Active reports whether a simulation is running.
func Active() bool { return sched != nil }

func (s *Sched) rand() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Rand is a seeded random number for simulated components.
func Rand() uint64 {
	if sched == nil {
		return 0
	}
	return sched.rand()
}

// New prepares a simulation.
func New(seed uint64, switchPer1024 uint64) *Sched {
	return &Sched{rng: seed, switchPct: switchPer1024, end: make(chan struct{}), MaxSteps: 200e6, panics: map[int]string{}}
}

// Spawn adds a task; killAt > 0 aborts it at that yield point.
func (s *Sched) Spawn(killAt int64, f func()) {
	t := &task{id: len(s.tasks), resume: make(chan struct{}), killAt: killAt, parent: -1}
	if s.cur != nil {
		t.parent = s.cur.id
		t.root = s.cur.root
	} else {
		t.root = t.id
	}
	s.tasks = append(s.tasks, t)
	s.live++
	go func() {
		<-t.resume
		if s.Hook != nil {
			s.Hook(t.root)
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Killed); !ok {
						s.panics[t.id] = fmt.Sprint(r)
					}
				}
			}()
			f()
		}()
		t.done = true
		s.live--
		s.idle = 0
		if s.live == 0 {
			close(s.end)
			return
		}
		n := s.pick(t)
		if n == nil {
			s.Deadlock = true
			close(s.end)
			return
		}
		s.cur = n
		n.resume <- struct{}{}
	}()
}

// pick chooses the next task to run, or nil if none can.
func (s *Sched) pick(me *task) *task {
	var c []*task
	for _, t := range s.tasks {
		if !t.done && !t.blocked {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[s.rand()%uint64(len(c))]
}

// Run executes the simulation until every task has finished (or none can go
// on). It returns the panics of tasks that were not aborted on purpose.
func (s *Sched) Run() map[int]string {
	if len(s.tasks) == 0 {
		return s.panics
	}
	sched = s
	mapUses = map[uintptr][]mapUse{}
	n := s.pick(nil)
	s.cur = n
	n.resume <- struct{}{}
	<-s.end
	sched = nil
	return s.panics
}

func (s *Sched) switchTo(me, n *task) {
	s.Trace = (s.Trace ^ uint64(n.id+1)) * 0x100000001b3
	s.Trace ^= uint64(me.steps)
	s.Switches++
	s.cur = n
	n.resume <- struct{}{}
	<-me.resume
	if s.Hook != nil {
		s.Hook(me.root)
	}
	if me.killAt < 0 {
		panic(Killed{})
	}
}

// After is a point between the evaluation of an operand and its use.
func After[T any](v T) T {
	Yield()
	return v
}

// Hold tells the scheduler that the running task got (1) or gave back (-1)
// something others wait for. The code between is not where a panic comes from,
// so that an abort waits until the task holds nothing.
func Hold(d int) {
	if s := sched; s != nil && s.cur != nil && s.cur.holds+d >= 0 {
		s.cur.holds += d
	}
}

// mapUse is an access to a map that is under way.
type mapUse struct {
	t     *task
	write bool
}

var mapUses = map[uintptr][]mapUse{}

// mapAccess takes the time of an access to a map: one that overlaps with a
// write of another task ends the process, as it would in reality.
func mapAccess(p uintptr, write bool) {
	s := sched
	if s == nil || p == 0 {
		return
	}
	me := s.cur
	for _, u := range mapUses[p] {
		if u.t != me && (write || u.write) {
			panic("concurrent map access, at least one of them a write")
		}
	}
	mapUses[p] = append(mapUses[p], mapUse{me, write})
	defer func() {
		us := mapUses[p]
		for i := range us {
			if us[i].t == me {
				us = append(us[:i:i], us[i+1:]...)
				break
			}
		}
		if len(us) == 0 {
			delete(mapUses, p)
		} else {
			mapUses[p] = us
		}
	}()
	Yield()
}

// MapR and MapW stand for a map that is read or written next.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if sched != nil {
		mapAccess(reflect.ValueOf(m).Pointer(), false)
	}
	return m
}

func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if sched != nil {
		mapAccess(reflect.ValueOf(m).Pointer(), true)
	}
	return m
}

// Yield is a point where the scheduler may run somebody else.
func Yield() {
	s := sched
	if s == nil {
		return
	}
	me := s.cur
	s.Steps++
	me.steps++
	s.idle = 0
	if me.killAt > 0 && me.steps >= me.killAt && me.holds == 0 {
		me.killAt = 0
		s.Kills++
		panic(Killed{})
	}
	if s.Steps > s.MaxSteps {
		s.Overrun = true
		panic(Killed{})
	}
	if s.rand()&1023 >= s.switchPct {
		return
	}
	n := s.pick(me)
	if n == me || n == nil {
		return
	}
	s.switchTo(me, n)
}

// Block waits until cond holds, running the others meanwhile. It gives up on a
// deadlock.
func Block(cond func() bool) {
	s := sched
	if s == nil {
		return
	}
	for !cond() {
		me := s.cur
		s.idle++
		if s.idle > 4*len(s.tasks)*64 {
			s.Deadlock = true
			panic(Killed{})
		}
		var c []*task
		for _, t := range s.tasks {
			if !t.done && t != me {
				c = append(c, t)
			}
		}
		if len(c) == 0 {
			s.Deadlock = true
			panic(Killed{})
		}
		s.switchTo(me, c[s.rand()%uint64(len(c))])
	}
	s.idle = 0
}

// Go starts a task the way a go statement does.
func Go(f func()) {
	if sched == nil {
		go f()
		return
	}
	sched.Spawn(0, f)
	Yield()
}

// Keys lists the keys of a map in an order chosen by the seed.
func Keys[K comparable, V any](m map[K]V) []K {
	MapR(m)
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if sched == nil {
		return ks
	}
	sort.SliceStable(ks, func(i, j int) bool { return fmt.Sprintf("%v", ks[i]) < fmt.Sprintf("%v", ks[j]) })
	for i := len(ks) - 1; i > 0; i-- {
		j := int(sched.rand() % uint64(i+1))
		ks[i], ks[j] = ks[j], ks[i]
	}
	return ks
}
