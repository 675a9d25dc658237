// Command vc runs the checks.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"vh/checks"
	"vh/core"
)

func tierOf(s string) core.Tier {
	if s == "thorough" {
		return core.Thorough
	}
	return core.Quick
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vc check ID TIER | job ... | list | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, c := range checks.All() {
			fmt.Println(c.ID)
			if c.Jobs != nil {
				for _, j := range c.Jobs(tierOf(os.Getenv("VERIF_TIER"))) {
					fmt.Println("   ", j.Name)
				}
			}
		}
	case "check":
		ck := checks.Find(os.Args[2])
		if ck == nil {
			fmt.Fprintln(os.Stderr, "no check", os.Args[2])
			os.Exit(2)
		}
		exe, err := os.Executable()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		p := core.NewParent(ck, tierOf(os.Args[3]), env("VC_VERIF", "/verif"), env("VC_REPO", "/repo"), os.Getenv("VC_SCRATCH"), exe)
		os.Exit(p.Run())
	case "job":
		// job ID TIER NAME OUT JOURNAL EAGER LIMIT KNOWN...
		a := os.Args[2:]
		ck := checks.Find(a[0])
		if ck == nil {
			os.Exit(2)
		}
		lim, err := time.ParseDuration(a[6])
		if err != nil {
			os.Exit(2)
		}
		os.Exit(core.RunJob(ck, tierOf(a[1]), a[2], a[3], a[4], a[5] == "true", lim, a[7:]))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r struct{ Property, Tier, Job string }
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		out := os.Getenv("VC_SCRATCH") + "/replay.json"
		ck := checks.Find(r.Property)
		if ck == nil {
			fmt.Fprintln(os.Stderr, "no check", r.Property)
			os.Exit(2)
		}
		if ck.ExecFor != nil {
			p := core.NewParent(ck, tierOf(r.Tier), env("VC_VERIF", "/verif"), env("VC_REPO", "/repo"), os.Getenv("VC_SCRATCH"), "")
			ex, err := ck.ExecFor(p, r.Job)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			if ex != nil {
				cmd := exec.Command(ex.Exe, "job", r.Property, r.Tier, strings.TrimPrefix(r.Job, ex.Prefix), out, "", "false", "1h")
				cmd.Env = append(append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all"), ex.Env...)
				cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
				err := cmd.Run()
				p.Close()
				if err != nil {
					fmt.Println("reproduced:", err)
					os.Exit(1)
				}
				report(out)
				return
			}
		}
		rc := core.RunJob(ck, tierOf(r.Tier), r.Job, out, "", false, time.Hour, nil)
		if rc != 0 {
			os.Exit(rc)
		}
		report(out)
	}
}

func report(out string) {
	b, _ := os.ReadFile(out)
	var res core.Result
	json.Unmarshal(b, &res)
	for _, v := range res.Violations {
		fmt.Println("reproduced:", v.Msg)
		fmt.Println(strings.Join(v.Trace, "\n"))
		os.Exit(1)
	}
	fmt.Println("not reproduced")
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
