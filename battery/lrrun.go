package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
)

func init() {
	props["C15"] = c15
}

// c15 copies each training program into its own package (they all define
// package main in one directory) next to a test that calls its functions.
func c15(t *T) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	_, here, _, _ := runtime.Caller(0)
	dir := filepath.Dir(here)
	work, err := os.MkdirTemp("", "verif-lr-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(work)
	files, _ := filepath.Glob(filepath.Join(repo, "lr", "*.go"))
	tmpl, err := os.ReadFile(filepath.Join(dir, "lrtmpl", "verif_test.go.txt"))
	if err != nil {
		panic(err)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(work, f), b, 0644)
	}
	type res struct {
		name, err string
		Skipped   string
		Cases     []string
		Failures  []Failure
	}
	out := make([]res, len(files))
	var wg sync.WaitGroup
	for n, f := range files {
		name := filepath.Base(f[:len(f)-3])
		if len(name) > 5 && name[len(name)-5:] == "_test" {
			continue
		}
		wg.Add(1)
		go func(n int, f, name string) {
			defer wg.Done()
			out[n].name = name
			d := filepath.Join(work, name)
			os.MkdirAll(d, 0755)
			b, _ := os.ReadFile(f)
			os.WriteFile(filepath.Join(d, "main.go"), b, 0644)
			os.WriteFile(filepath.Join(d, "verif_test.go"), tmpl, 0644)
			js := filepath.Join(work, name+".json")
			cmd := exec.Command("go", "test", "-vet=off", "-timeout", "90s", "-run", "TestVerifSums", "./"+name)
			cmd.Dir = work
			cmd.Env = append(os.Environ(), "VERIF_PROG="+name, "VERIF_OUT="+js)
			o, err := cmd.CombinedOutput()
			jb, e2 := os.ReadFile(js)
			if e2 != nil {
				if err == nil {
					return
				}
				if strings.Contains(string(o), "[build failed]") {
					// Another signature or another helper's name is not a violation by itself: the program stands as long as it builds.
					b := exec.Command("go", "build", "-o", os.DevNull, f)
					b.Dir = filepath.Dir(f)
					b.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
					if b.Run() == nil {
						out[n].Skipped = string(o)
						return
					}
				}
				out[n].err = err.Error() + ": " + string(o)
				return
			}
			json.Unmarshal(jb, &out[n])
		}(n, f, name)
	}
	wg.Wait()
	for _, r := range out {
		if r.name == "" {
			continue
		}
		for _, c := range r.Cases {
			t.Evals++
			t.Distinct[c] = true
		}
		if r.Skipped != "" {
			fmt.Fprintf(os.Stderr, "%s is not run, the harness does not fit it: %s\n", r.name, r.Skipped)
		}
		if r.err != "" {
			t.cur = "C15 " + r.name
			t.fail("the program does not build, or does not finish: %s", r.err)
		}
		t.Fails = append(t.Fails, r.Failures...)
	}
}
