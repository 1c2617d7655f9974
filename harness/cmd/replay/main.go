// replay runs harnesses natively, against the real code, on concrete vectors found by the solver.
package main

import (
	"encoding/json"
	"os"
	"time"

	"verif/harness/h"
	"verif/harness/sym"
)

type kase struct {
	ID       int               `json:"id"`
	Harness  string            `json:"harness"`
	Prop     string            `json:"prop"`
	Kind     string            `json:"kind"`
	Vector   map[string]string `json:"vector"`
	Thorough bool              `json:"thorough"`
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		os.Exit(2)
	}
	var cs []kase
	if err := json.Unmarshal(b, &cs); err != nil {
		var c kase
		if err := json.Unmarshal(b, &c); err != nil {
			os.Exit(2)
		}
		cs = []kase{c}
	}
	enc := json.NewEncoder(os.Stdout)
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stderr = devnull
	for _, c := range cs {
		f := h.All[c.Harness]
		if f == nil {
			continue
		}
		if c.Kind == "deadlock" {
			done := make(chan sym.Result, 1)
			go func() { done <- sym.Run(f, c.Vector, c.Prop, true, c.Thorough) }()
			select {
			case r := <-done:
				r.ID = c.ID
				enc.Encode(r)
			case <-time.After(20 * time.Second):
				enc.Encode(sym.Result{ID: c.ID, TimedOut: true})
				return
			}
			continue
		}
		r := sym.Run(f, c.Vector, c.Prop, c.Kind != "witness", c.Thorough)
		r.ID = c.ID
		enc.Encode(r)
	}
}
