package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	_ "github.com/ElrondNetwork/elrond-go-logger"
	logger "github.com/ElrondNetwork/elrond-go-logger"
)

func main() {
	logger.SetLogLevel("*:NONE")
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: simcheck check PROPERTY | replay FILE | dev PROPERTY FROM TO")
		os.Exit(2)
	}
	loadFindings()
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "worker":
		worker(os.Args[2:])
		return
	case "replay1":
		replay1(os.Args[2])
		return
	case "minimise1":
		secs, _ := strconv.ParseFloat(os.Args[4], 64)
		minimise1(os.Args[2], os.Args[3], secs)
		return
	case "dev":
		dev(os.Args[2:])
	}
}

// dev runs seeds in this process, for work on the simulator.
func dev(args []string) {
	prop := args[0]
	a, _ := strconv.Atoi(args[1])
	b, _ := strconv.Atoi(args[2])
	st := newStats()
	bad := 0
	for s := a; s < b; s++ {
		sc := generate(prop, uint64(s))
		v, h := runScenario(sc, st, os.Getenv("V") != "")
		if os.Getenv("DUMP") == "all" {
			j, _ := json.MarshalIndent(sc, "", " ")
			os.WriteFile(fmt.Sprintf("/tmp/w/sc.%d.json", s), j, 0644)
		}
		if v != nil {
			bad++
			fmt.Println(s, v.Props, "step", v.Step, v.Msg)
			if os.Getenv("EV") != "" {
				for i, e := range lastModel.evs {
					mark := " "
					if i == lastModel.pos-1 {
						mark = "*"
					}
					fmt.Printf("%s%3d kind %d inst %d lim %d pts %d ok %v brk %d %s %v -> %d\n", mark, i, e.Kind, e.Inst, e.Limit, e.Points, e.Ok, e.Brk, e.Name, e.Args, e.Result)
				}
			}
			if os.Getenv("DUMP") != "" {
				j, _ := json.MarshalIndent(sc, "", " ")
				os.WriteFile("/tmp/w/sc.json", j, 0644)
			}
			if m, _ := strconv.Atoi(os.Getenv("BAD")); bad > 3 || m > 0 && bad >= m {
				break
			}
		}
		if os.Getenv("H") != "" {
			fmt.Printf("%d %016x\n", s, h)
		}
	}
	for k := range st.Sets {
		st.N["set_"+k] = uint64(len(st.Sets[k]))
	}
	for k := range st.Sets["not_modelled"] {
		fmt.Println("unmodelled", k)
	}
	for _, k := range keysOf(st.N) {
		fmt.Print(k, "=", st.N[k], " ")
	}
	fmt.Println()
}
