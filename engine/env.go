package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Environment variables, and commands found through PATH. The only commands that can be run are scripts the
// harness itself put into a PATH directory, of the form "#!/bin/sh\n" followed by lines "echo TEXT" and
// at most one "exit N".

func (x *Exec) env(k string) (string, bool) {
	v, ok := x.st.misc["env:"+k].(string)
	return v, ok
}

func (x *Exec) homeDir() string {
	if h, ok := x.env("HOME"); ok && h != "" {
		return h
	}
	return "/vxtmp/home"
}

func (x *Exec) script(name string) (out string, code int, found bool) {
	var cands []string
	if strings.Contains(name, "/") {
		cands = []string{name}
	} else {
		p, _ := x.env("PATH")
		for _, d := range strings.Split(p, ":") {
			if d != "" {
				cands = append(cands, d+"/"+name)
			}
		}
	}
	for _, c := range cands {
		n, e := x.lookupNode(c)
		if e != 0 || n.dir || n.mode&0111 == 0 {
			continue
		}
		b, ok := concBytes(n.data)
		if !ok {
			panic(unsupported("running a script with symbolic content"))
		}
		for i, l := range strings.Split(strings.TrimRight(string(b), "\n"), "\n") {
			switch {
			case i == 0 && l == "#!/bin/sh":
			case strings.HasPrefix(l, "echo "):
				out += l[5:] + "\n"
			case l == "exit 1":
				return out, 1, true
			default:
				panic(unsupported("running an unknown program"))
			}
		}
		return out, 0, true
	}
	return "", 0, false
}

func init() {
	reg("os.Setenv", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		x.st.misc["env:"+x.str(a[0])] = x.str(a[1])
		return nilIface()
	})
	reg("os.Unsetenv", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		delete(x.st.misc, "env:"+x.str(a[0]))
		return nilIface()
	})
	reg("os.Getenv", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		v, _ := x.env(x.str(a[0]))
		return v
	})
	reg("os.LookupEnv", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		v, ok := x.env(x.str(a[0]))
		return Tuple{v, x.c.Bool(ok)}
	})
	reg("os.UserHomeDir", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return Tuple{x.homeDir(), nilIface()} })
	reg("github.com/mitchellh/go-homedir.Dir", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return Tuple{x.homeDir(), nilIface()}
	})

	reg("os/signal.Notify", retZero)
	reg("github.com/tendermint/tendermint/libs/log.NewTMLogger", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		return x.callFn(g, g.top, fn.Pkg.Func("NewNopLogger"), nil, nil)
	})

	// ---- commands
	field := func(x *Exec, name string) (int, *types.Struct) {
		st := x.w.eng.pkgType("os/exec", "Cmd").Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i, st
			}
		}
		panic(unsupported("exec.Cmd." + name))
	}
	command := func(x *Exec, name Value, args Value) Value {
		v := zero(x.c, x.w.eng.pkgType("os/exec", "Cmd")).(Struct)
		pi, _ := field(x, "Path")
		ai, _ := field(x, "Args")
		v[pi] = name
		v[ai] = append(Slice{name}, args.(Slice)...)
		var pv Value = v
		return Ptr(&pv)
	}
	reg("os/exec.Command", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return command(x, a[0], a[1]) })
	reg("os/exec.CommandContext", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value { return command(x, a[1], a[2]) })
	reg("os/exec.LookPath", func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
		n := x.str(a[0])
		if _, _, ok := x.script(n); ok {
			return Tuple{n, nilIface()}
		}
		return Tuple{"", x.mkErr("exec: \"" + n + "\": executable file not found in $PATH")}
	})
	run := func(withOut bool) Intrinsic {
		return func(x *Exec, g *G, fn *ssa.Function, a []Value) Value {
			pi, _ := field(x, "Path")
			so, _ := field(x, "Stdout")
			s := (*a[0].(Ptr)).(Struct)
			if i, ok := s[so].(Iface); ok && i.T != nil {
				panic(unsupported("exec.Cmd with Stdout"))
			}
			n := x.str(s[pi])
			out, code, found := x.script(n)
			err := nilIface()
			if !found {
				err = x.mkErr("exec: \"" + n + "\": executable file not found in $PATH")
			} else if code != 0 {
				err = x.mkErr("exit status 1")
			}
			if !withOut {
				return err
			}
			if out == "" {
				return Tuple{Slice(nil), err}
			}
			return Tuple{x.goBytes([]byte(out)), err}
		}
	}
	reg("(*os/exec.Cmd).Output", run(true))
	reg("(*os/exec.Cmd).CombinedOutput", run(true))
	reg("(*os/exec.Cmd).Run", run(false))
}
