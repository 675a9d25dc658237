package checks

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"vh/core"
	"vh/eng"
	"vh/instr"
)

var typedKinds = []string{"strtree", "domaintree", "iptree"}

// regenJobs explore typed packages; they run with the regenerated ones.
func regenJobs(t core.Tier) []core.Job {
	typed := eng.Variants[1:]
	full := eng.Mode{CheckIns: true, CheckDel: true, CheckRes: true, Persist: true, Inplace: true, SameAsCow: true, Sweep: true}
	var js []core.Job
	js = append(js, lockstepJobs(t, 3, 4)...)
	js = append(js, valueJobs()...)
	js = append(js, domBFS(t, full, typed)...)
	js = append(js, ipBFS(t, full, typed, 16)...)
	js = append(js, strBFS(t, full)[1:]...)
	for _, j := range rbJobs(t, func(x *eng.RB) { x.Map, x.Inplace, x.Persist = true, true, true }, 9, 13, true) {
		if !strings.HasPrefix(j.Name, "strtree/") && !strings.HasPrefix(j.Name, "domaintree/") &&
			!strings.HasPrefix(j.Name, "strtree0") && !strings.HasPrefix(j.Name, "domaintree0") {
			js = append(js, j)
		}
	}
	js = append(js, versionJobs(t, 2, 3, typed)...)
	js = append(js, linearJobs(t, 3, 4, typed, true)...)
	return js
}

// regenerate makes a copy of the repository whose typed packages are made by etc from the
// templates, and returns what is wrong if that fails.
func regenerate(p *core.Parent) (dir string, v *core.Violation, err error) {
	base, err := os.MkdirTemp("", "vcgen")
	if err != nil {
		return "", nil, err
	}
	p.Cleanup(func() { os.RemoveAll(base) })
	dir = filepath.Join(base, "repo")
	if err := instr.CopyTree(p.Repo, dir, nil); err != nil {
		return "", nil, err
	}
	ux := filepath.Join(dir, "uintX")
	for _, k := range typedKinds {
		for _, w := range eng.Variants[1:] {
			// Only what etc makes is left to be built.
			if err := os.RemoveAll(filepath.Join(ux, fmt.Sprintf("%s%d", k, w))); err != nil {
				return "", nil, err
			}
		}
	}
	if os.Getuid() == 0 {
		// etc runs as a user who owns nothing but the copy.
		os.Chmod(base, 0755)
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil {
				os.Lchown(p, 65534, 65534)
			}
			return err
		})
	}
	exe := filepath.Join(base, "etc")
	if err := buildEtc(p.Repo, exe); err != nil {
		return "", nil, err
	}
	e := &etcRun{exe: exe}
	if os.Getuid() == 0 {
		e.uid = 65534
	}
	for _, k := range typedKinds {
		for _, w := range eng.Variants[1:] {
			args := []string{"-s", fmt.Sprintf("uint%d", w), "-d", "uintX.yaml", "-t", "./" + k + "{{.bits}}"}
			ok, out := e.exec(ux, args...)
			if !ok {
				return "", &core.Violation{Sig: "generate", Kind: "oracle", Msg: fmt.Sprintf("etc %s fails:\n%s", strings.Join(args, " "), out)}, nil
			}
		}
	}
	cmd := exec.Command("go", "build", "./uintX/...")
	cmd.Dir = dir
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", &core.Violation{Sig: "build", Kind: "oracle", Msg: fmt.Sprintf("regenerated packages don't build: %s\n%s", err, b)}, nil
	}
	cmd = exec.Command("go", "list", "-f", "{{.ImportPath}}", "./uintX/...")
	cmd.Dir = dir
	b, err := cmd.Output()
	if err != nil {
		return "", nil, fmt.Errorf("go list: %s", err)
	}
	have := map[string]bool{}
	for _, l := range strings.Fields(string(b)) {
		have[l] = true
	}
	for _, k := range typedKinds {
		for _, w := range eng.Variants[1:] {
			n := fmt.Sprintf("github.com/infobloxopen/go-trees/uintX/%s%d", k, w)
			if !have[n] {
				return "", &core.Violation{Sig: "generate", Kind: "oracle", Msg: "etc has succeeded but there is no package " + n}, nil
			}
		}
	}
	return dir, nil, nil
}

func regenExec(p *core.Parent) (*core.Exec, *core.Violation, error) {
	dir, v, err := regenerate(p)
	if v != nil || err != nil {
		return nil, v, err
	}
	h, err := harnessFor(p, dir, "harness-regenerated")
	if err != nil {
		return nil, nil, err
	}
	exe := filepath.Join(p.Scratch, "vc-regenerated")
	if err := goBuild(h, exe); err != nil {
		return nil, &core.Violation{Sig: "interface", Kind: "oracle", Msg: fmt.Sprintf("regenerated packages don't have the interface of the committed ones: %s", err)}, nil
	}
	return &core.Exec{Exe: exe}, nil, nil
}

func init() {
	register(&core.Check{
		ID: "C24", Level: "model_checking",
		Rule: "etc built from the working tree makes all twelve typed packages from the templates in a copy of the repository from which they were removed; the harness is built with these packages and explores them: " +
			"histories in lockstep with the generic trees, values of the full width, every operation (results, flags, persistence, in-place insertion) in every reachable state of alphabets and red-black shapes",
		Assumptions: commonAssumptions,
		Jobs:        regenJobs,
		Select:      func(string) bool { return false },
		ExecFor: func(p *core.Parent, job string) (*core.Exec, error) {
			ex, v, err := regenExec(p)
			if v != nil {
				err = fmt.Errorf("%s", v.Msg)
			}
			return ex, err
		},
		Custom: func(p *core.Parent) error {
			ex, v, err := regenExec(p)
			if err != nil {
				return err
			}
			if v != nil {
				p.Violate("regenerate", *v)
				return nil
			}
			p.RunJobs(namesOf(regenJobs(p.Tier), ""), *ex)
			return nil
		},
	})
}
