// vmctool builds and runs one check: it copies the working tree of the repository to a scratch
// module, rewrites its concurrency primitives for the controlled scheduler (or leaves them alone in
// plain mode), adds the harness, builds it, and runs it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/build/constraint"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

const modPath = "github.com/livekit/media-sdk"

type checkCfg struct {
	// Rewrite selects the controlled scheduler; otherwise the sources are used as they are.
	Rewrite bool `json:"rewrite"`
	// Race additionally builds a -race binary.
	Race bool `json:"race"`
	// Deps are modules whose sources are rewritten too.
	Deps []string `json:"deps"`
}

var (
	repo   = flag.String("repo", "/repo", "repository")
	root   = flag.String("root", "", "verif directory")
	check  = flag.String("check", "", "check id (directory below vmc/h)")
	keep   = flag.Bool("keep", false, "keep the scratch directory")
	only   = flag.String("only", "", "run only the scenarios whose name contains this")
	replay = flag.String("replay", "", "replay a recorded violation file")
	tests  = flag.Bool("tests", false, "copy test files too and run the repository's tests on the rewritten sources")
	gob    = flag.String("go", "go", "go command")
	self   = flag.String("self", "", "directory holding this binary, removed at the end")
	norun  = flag.Bool("norun", false, "build only")
)

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vmctool: "+format+"\n", a...)
	cleanup()
	os.Exit(3)
}

var scratch string

func cleanup() {
	if *self != "" {
		_ = os.RemoveAll(*self)
	}
	if scratch != "" && !*keep {
		_ = filepath.WalkDir(scratch, func(p string, d fs.DirEntry, err error) error {
			if err == nil && d.IsDir() {
				_ = os.Chmod(p, 0o755)
			}
			return nil
		})
		_ = os.RemoveAll(scratch)
	}
}

func main() {
	flag.Parse()
	var cfg checkCfg
	if *check != "" {
		b, err := os.ReadFile(filepath.Join(*root, "vmc/h", *check, "check.json"))
		if err != nil {
			die("%v", err)
		}
		if err := json.Unmarshal(b, &cfg); err != nil {
			die("%v", err)
		}
	} else {
		cfg = checkCfg{Rewrite: true, Deps: []string{"github.com/frostbyte73/core"}}
	}
	var err error
	base := os.Getenv("TMPDIR")
	if base == "" {
		base = "/tmp"
	}
	scratch, err = os.MkdirTemp(base, "vmc-")
	if err != nil {
		die("%v", err)
	}
	start := time.Now()
	mod := filepath.Join(scratch, "m")
	files, err := copyRepo(mod, *tests)
	if err != nil {
		die("copy: %v", err)
	}
	// harness and runtime
	if err := copyTree(filepath.Join(*root, "vmc/rt"), filepath.Join(mod, "vmcrt"), nil); err != nil {
		die("%v", err)
	}
	var extra []string
	if *check != "" {
		for _, d := range []struct{ from, to string }{{"vmc/lib", "vh"}, {"vmc/h/" + *check, "vhmain"}} {
			if err := copyTree(filepath.Join(*root, d.from), filepath.Join(mod, d.to), &extra); err != nil {
				die("%v", err)
			}
		}
	}
	gomod, err := os.ReadFile(filepath.Join(mod, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	if cfg.Rewrite {
		w := &world{fset: token.NewFileSet(), pkgs: map[string]*srcPkg{}, fake: map[string]*types.Package{}}
		groups := map[string][]string{}
		addFile := func(modRoot, imp, f string) {
			rel, _ := filepath.Rel(modRoot, filepath.Dir(f))
			p := imp
			if rel != "." {
				p += "/" + filepath.ToSlash(rel)
			}
			groups[p] = append(groups[p], f)
		}
		for _, f := range files {
			if strings.HasSuffix(f, ".go") && buildable(f) {
				addFile(mod, modPath, f)
			}
		}
		for _, f := range extra {
			if strings.HasSuffix(f, ".go") && !strings.Contains(f, "/vh/") && buildable(f) {
				addFile(mod, modPath, f)
			}
		}
		addFile(mod, modPath, filepath.Join(mod, "vmcrt/vcontext/context.go"))
		for _, d := range cfg.Deps {
			dir := modDir(mod, d)
			if dir == "" {
				continue
			}
			to := filepath.Join(scratch, "deps", strings.ReplaceAll(d, "/", "_"))
			var got []string
			if err := copyTree(dir, to, &got); err != nil {
				die("%v", err)
			}
			fixDepMod(to)
			for _, f := range got {
				if strings.HasSuffix(f, ".go") && buildable(f) {
					addFile(to, d, f)
				}
			}
			gomod = append(gomod, []byte(fmt.Sprintf("\nreplace %s => %s\n", d, to))...)
		}
		var paths []string
		for p := range groups {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		for _, p := range paths {
			// test files of package foo_test are type-checked on their own
			var normal, ext []string
			for _, f := range groups[p] {
				if strings.HasSuffix(f, "_test.go") && isExtTest(f) {
					ext = append(ext, f)
				} else {
					normal = append(normal, f)
				}
			}
			if _, err := parsePkg(w, p, normal); err != nil {
				die("parse: %v", err)
			}
			if len(ext) > 0 {
				if _, err := parsePkg(w, p+"_test", ext); err != nil {
					die("parse: %v", err)
				}
			}
		}
		var all []string
		for p := range w.pkgs {
			all = append(all, p)
		}
		sort.Strings(all)
		for _, p := range all {
			w.check(w.pkgs[p])
		}
		for _, p := range all {
			pk := w.pkgs[p]
			var no map[string]bool
			if strings.HasSuffix(p, "/vcontext") {
				no = map[string]bool{"context": true}
			}
			for i, name := range pk.names {
				if err := os.WriteFile(name, rewriteFile(w, pk, i, no), 0o644); err != nil {
					die("%v", err)
				}
			}
		}
	}
	if err := os.WriteFile(filepath.Join(mod, "go.mod"), gomod, 0o644); err != nil {
		die("%v", err)
	}
	if *tests {
		runTests(mod)
		return
	}
	bin := filepath.Join(scratch, "check.bin")
	if err := goBuild(mod, bin, false); err != nil {
		die("build failed: %v", err)
	}
	args := []string{"-root", *root, "-check", *check, "-scratch", scratch}
	if cfg.Race {
		rb := filepath.Join(scratch, "check.race")
		if err := goBuild(mod, rb, true); err != nil {
			die("race build failed: %v", err)
		}
		args = append(args, "-racebin", rb)
	}
	fmt.Fprintf(os.Stderr, "vmctool: built in %.1fs\n", time.Since(start).Seconds())
	if *only != "" {
		args = append(args, "-only", *only)
	}
	if *replay != "" {
		args = append(args, "-replay", *replay)
	}
	if *norun {
		fmt.Println(bin, args)
		return
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = mod
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err = cmd.Run()
	cleanup()
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			os.Exit(ee.ExitCode())
		}
		fmt.Fprintln(os.Stderr, "vmctool:", err)
		os.Exit(3)
	}
}

var pkgRe = regexp.MustCompile(`(?m)^package\s+(\w+)`)

func isExtTest(f string) bool {
	b, _ := os.ReadFile(f)
	m := pkgRe.FindSubmatch(b)
	return m != nil && strings.HasSuffix(string(m[1]), "_test")
}

// buildable evaluates the build constraints of a file for this platform.
func buildable(f string) bool {
	b, err := os.ReadFile(f)
	if err != nil {
		return false
	}
	base := strings.TrimSuffix(strings.TrimSuffix(filepath.Base(f), ".go"), "_test")
	parts := strings.Split(base, "_")
	for _, p := range parts[1:] {
		switch p {
		case "windows", "darwin", "freebsd", "netbsd", "openbsd", "js", "wasm", "arm64", "arm", "386", "plan9", "solaris", "wasip1", "aix", "dragonfly", "android", "ios":
			return false
		}
	}
	for _, line := range strings.Split(string(b), "\n") {
		l := strings.TrimSpace(line)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			x, err := constraint.Parse(l)
			if err != nil {
				return true
			}
			return x.Eval(func(tag string) bool {
				switch tag {
				case "linux", "amd64", "cgo", "unix", "gc":
					return true
				}
				if strings.HasPrefix(tag, "go1.") {
					var n int
					fmt.Sscanf(tag, "go1.%d", &n)
					return n <= 24
				}
				return false
			})
		}
	}
	return true
}

func copyFile(from, to string) error {
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
		return err
	}
	return os.WriteFile(to, b, 0o644)
}

func copyRepo(to string, withTests bool) ([]string, error) {
	var out []string
	err := filepath.WalkDir(*repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if d.IsDir() {
			if rel != "." && (strings.HasPrefix(d.Name(), ".") || d.Name() == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !d.Type().IsRegular() {
			return nil
		}
		if strings.HasSuffix(p, "_test.go") && !withTests {
			return nil
		}
		t := filepath.Join(to, rel)
		out = append(out, t)
		return copyFile(p, t)
	})
	return out, err
}

func copyTree(from, to string, got *[]string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			if d.Name() == "testdata" || d.Name() == "examples" {
				return filepath.SkipDir
			}
			return nil
		}
		if !d.Type().IsRegular() || strings.HasSuffix(p, "_test.go") || d.Name() == "check.json" {
			return nil
		}
		t := filepath.Join(to, rel)
		if got != nil {
			*got = append(*got, t)
		}
		return copyFile(p, t)
	})
}

func modDir(mod, path string) string {
	cmd := exec.Command(*gob, "list", "-m", "-f", "{{.Dir}}", path)
	cmd.Dir = mod
	b, err := cmd.Output()
	if err != nil {
		fmt.Fprintf(os.Stderr, "vmctool: module %s not found, not rewritten\n", path)
		return ""
	}
	return strings.TrimSpace(string(b))
}

var goLine = regexp.MustCompile(`(?m)^(go|toolchain)\s.*$`)

// fixDepMod gives a copied dependency the language version and the module requirement the
// rewritten sources need. The runtime package is provided by the main module.
func fixDepMod(dir string) {
	f := filepath.Join(dir, "go.mod")
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	first := true
	b = goLine.ReplaceAllFunc(b, func(m []byte) []byte {
		if first && strings.HasPrefix(string(m), "go") {
			first = false
			return []byte("go 1.24")
		}
		return nil
	})
	if err := os.WriteFile(f, b, 0o644); err != nil {
		die("%v", err)
	}
}

func goBuild(mod, out string, race bool) error {
	args := []string{"build", "-o", out}
	if race {
		args = append(args, "-race",
			"-gcflags="+modPath+"/vmcrt=-race=false -l",
			"-gcflags="+modPath+"/vmcrt/...=-race=false -l")
	}
	args = append(args, "./vhmain")
	cmd := exec.Command(*gob, args...)
	cmd.Dir = mod
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, b)
	}
	return nil
}

func runTests(mod string) {
	cmd := exec.Command(*gob, "test", "./...")
	cmd.Dir = mod
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	err := cmd.Run()
	cleanup()
	if err != nil {
		os.Exit(1)
	}
}
