// Package orchestrator is a stand-in for code.cloudfoundry.org/go-orchestrator:
// it spreads tasks over workers and moves the workers towards that.
package orchestrator

import (
	"context"
	"sync"
)

// Communicator talks to the workers.
type Communicator interface {
	List(ctx context.Context, worker interface{}) ([]interface{}, error)
	Add(ctx context.Context, worker interface{}, task interface{}) error
	Remove(ctx context.Context, worker interface{}, task interface{}) error
}

// Task is a task and how many workers are to have it.
type Task struct {
	Name      interface{}
	Instances int
}

// TaskOption configures a task.
type TaskOption func(*Task)

// WithTaskInstances sets the number of instances; the default is 1.
func WithTaskInstances(n int) TaskOption { return func(t *Task) { t.Instances = n } }

// WorkerState is what a worker said it has.
type WorkerState struct {
	Name  interface{}
	Tasks []interface{}
}

// Orchestrator assigns tasks to workers.
type Orchestrator struct {
	c Communicator

	mu         sync.Mutex
	workers    []interface{}
	tasks      []Task
	lastActual []WorkerState
}

// New returns an orchestrator without workers or tasks.
func New(c Communicator) *Orchestrator { return &Orchestrator{c: c} }

// AddWorker adds a worker once.
func (o *Orchestrator) AddWorker(w interface{}) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, x := range o.workers {
		if x == w {
			return
		}
	}
	o.workers = append(o.workers, w)
}

// AddTask adds a task once.
func (o *Orchestrator) AddTask(task interface{}, opts ...TaskOption) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, x := range o.tasks {
		if x.Name == task {
			return
		}
	}
	t := Task{Name: task, Instances: 1}
	for _, f := range opts {
		f(&t)
	}
	o.tasks = append(o.tasks, t)
}

// LastActual is the state of the workers at the start of the last term.
func (o *Orchestrator) LastActual() []WorkerState {
	o.mu.Lock()
	defer o.mu.Unlock()
	return append([]WorkerState(nil), o.lastActual...)
}

// NextTerm lists what the workers have, decides what they should have (every
// wanted task on as many workers as asked, evenly spread, with few moves), and
// removes and adds accordingly. A worker that cannot be listed is left out of
// the term.
func (o *Orchestrator) NextTerm(ctx context.Context) {
	o.mu.Lock()
	defer o.mu.Unlock()
	type st struct {
		name   interface{}
		has    []interface{}
		should []interface{}
	}
	var ws []*st
	o.lastActual = nil
	for _, w := range o.workers {
		ts, err := o.c.List(ctx, w)
		if err != nil {
			continue
		}
		ws = append(ws, &st{name: w, has: ts, should: append([]interface{}(nil), ts...)})
		o.lastActual = append(o.lastActual, WorkerState{Name: w, Tasks: append([]interface{}(nil), ts...)})
	}
	if len(ws) == 0 {
		return
	}
	index := func(l []interface{}, task interface{}) int {
		for i, x := range l {
			if x == task {
				return i
			}
		}
		return -1
	}
	without := func(l []interface{}, i int) []interface{} {
		return append(l[:i:i], l[i+1:]...)
	}
	want := map[interface{}]int{}
	for _, t := range o.tasks {
		want[t.Name] = t.Instances
		if t.Instances > len(ws) {
			want[t.Name] = len(ws)
		}
	}
	holders := map[interface{}][]*st{}
	for _, s := range ws {
		var l []interface{}
		for _, x := range s.should {
			if _, ok := want[x]; ok {
				l = append(l, x)
				holders[x] = append(holders[x], s)
			}
		}
		s.should = l
	}
	for _, t := range o.tasks {
		for h := holders[t.Name]; len(h) > want[t.Name]; {
			big := 0
			for i, s := range h {
				if len(s.should) > len(h[big].should) {
					big = i
				}
			}
			h[big].should = without(h[big].should, index(h[big].should, t.Name))
			h = append(h[:big:big], h[big+1:]...)
		}
		for have := len(holders[t.Name]); have < want[t.Name]; have++ {
			var small *st
			for _, s := range ws {
				if index(s.should, t.Name) < 0 && (small == nil || len(s.should) < len(small.should)) {
					small = s
				}
			}
			small.should = append(small.should, t.Name)
		}
	}
	for {
		big, small := ws[0], ws[0]
		for _, s := range ws {
			if len(s.should) > len(big.should) {
				big = s
			}
			if len(s.should) < len(small.should) {
				small = s
			}
		}
		if len(big.should)-len(small.should) < 2 {
			break
		}
		for i, x := range big.should {
			if index(small.should, x) < 0 {
				big.should = without(big.should, i)
				small.should = append(small.should, x)
				break
			}
		}
	}
	for _, s := range ws {
		for _, x := range s.has {
			if index(s.should, x) < 0 {
				o.c.Remove(ctx, s.name, x)
			}
		}
	}
	for _, s := range ws {
		for _, x := range s.should {
			if index(s.has, x) < 0 {
				o.c.Add(ctx, s.name, x)
			}
		}
	}
}
