package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc func|check|worker ...")
		os.Exit(2)
	}
	dir, repo := "/verif", "/repo"
	if d := os.Getenv("GOVC_DIR"); d != "" {
		dir = d
	}
	if d := os.Getenv("GOVC_REPO"); d != "" {
		repo = d
	}
	switch os.Args[1] {
	case "worker":
		semaphore = make(chan struct{}, 4)
		solverSlots = 3
		workerMain(dir, repo)
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(checkMain(dir, repo, os.Args[2], tier))
	case "func":
		re := regexp.MustCompile(os.Args[2])
		prop := ""
		if len(os.Args) > 3 {
			prop = os.Args[3]
		}
		pr, err := load(dir, repo, []string{"./..."})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		solverSlots = 8
		bad := 0
		for _, con := range pr.spec.order {
			if con.Trusted || !re.MatchString(con.Key) {
				continue
			}
			rep := pr.verify(con, prop, 20000)
			nok := 0
			for _, o := range rep.Obls {
				if o.OK {
					nok++
				}
			}
			fmt.Printf("%s: %d/%d obligations, %d paths, %d queries, %dms\n", con.Short, nok, len(rep.Obls), rep.Paths, rep.Queries, rep.WallMs)
			for _, o := range rep.Obls {
				if o.OK && o.Ms > 1000 {
					fmt.Printf("   slow %dms %s %s [%s] %s\n", o.Ms, o.Kind, o.Label, o.Pos, o.By)
				}
				if !o.OK {
					bad++
					fmt.Printf("   FAILED %s %s [%s] (%dms)\n      %s\n", o.Kind, o.Label, o.Pos, o.Ms, clip(o.Detail, 700))
				}
			}
			if os.Getenv("GOVC_V") != "" {
				b, _ := json.MarshalIndent(rep, "", " ")
				fmt.Println(string(b))
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "search": // the search for failing inputs alone
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		b, _ := json.MarshalIndent(runHarness(context.Background(), dir, repo, os.Args[2], tier, 1), "", " ")
		fmt.Println(string(b))
	case "ssa":
		pr, err := load(dir, repo, []string{"./..."})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		re := regexp.MustCompile(os.Args[2])
		for _, k := range sortedKeys(pr.funcs) {
			if re.MatchString(k) {
				pr.funcs[k].WriteTo(os.Stdout)
			}
		}
	}
}
