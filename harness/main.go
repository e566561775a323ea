// The driver runs the implementation through its public interface and records
// what it does for the trace specifications in /verif/spec.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"
)

func main() {
	time.Local = time.UTC
	if len(os.Args) > 1 && os.Args[1] == "child" {
		childSave()
	}
	if len(os.Args) > 1 && os.Args[1] == "child-crand" {
		childCrand()
	}
	if len(os.Args) > 3 && os.Args[1] == "child-exec" {
		childExec()
	}
	out := flag.String("out", "", "trace file to write")
	seed := flag.Int64("seed", 1, "seed of all random choices")
	dir := flag.String("dir", "", "scratch directory")
	n := flag.Int("n", 10, "number of traces")
	ops := flag.Int("ops", 30, "operations per trace")
	prof := flag.String("profile", "mixed", "profile")
	scen := flag.String("scenarios", "", "scenarios to run")
	letters := flag.String("letters", "", "letter sequences to decipher")
	bin := flag.String("bin", "", "the program")
	exhaustive := flag.Bool("exhaustive", false, "enumerate more")
	flag.Parse()
	if flag.NArg() != 1 || *dir == "" {
		fmt.Println("usage: driver -dir DIR -out FILE mode")
		os.Exit(2)
	}
	check(os.Chdir(*dir))
	startDir = *dir
	rec := NewRecorder()
	switch flag.Arg(0) {
	case "net":
		runNet(rec, *seed, *dir, *prof, *n, *ops)
	case "scenarios":
		b, err := os.ReadFile(*scen)
		check(err)
		var s []Scenario
		check(json.Unmarshal(b, &s))
		runScenarios(rec, *seed, *dir, s)
	case "roundtrips":
		runRoundTrips(rec, *seed, *n, *exhaustive)
	case "legend":
		runLegend(rec, *seed, *n, *exhaustive, *letters)
	case "diana":
		runDiana(rec, *seed, *n)
	case "store":
		runStore(rec, *seed, *dir, *n, *ops, *prof)
	case "storescen":
		b, err := os.ReadFile(*scen)
		check(err)
		var s [][]StoreCmd
		check(json.Unmarshal(b, &s))
		runStoreScenarios(rec, *seed, *dir, s)
	case "damage":
		runDamage(rec, *seed, *dir, *n, *ops, 8)
	case "crash":
		runCrash(rec, *seed, *dir, *n, *ops, 6)
	case "older":
		runOlder(rec, *seed, *dir)
	case "radio":
		runRadio(rec, *seed, *n, *scen)
	case "crand":
		runCrand(rec, *seed, *n)
	case "wipe":
		runWipe(rec, *seed, *n, *ops, *scen)
	case "print":
		runPrint(rec, *seed, *n, *dir, *scen)
	case "list":
		runList(rec, *seed, *n, *scen)
	case "cli":
		runCli(rec, *seed, *dir, *bin, *n, *ops, *scen, *prof)
	case "cliscen":
		runCliScen(rec, *seed, *dir, *bin, *scen)
	case "clifault":
		runCliFaults(rec, *seed, *dir, *bin, *n)
	case "gen":
		runGen(rec, *seed, *n, *exhaustive)
	case "fixtures":
		makeFixtures(*dir)
		return
	default:
		fmt.Println("unknown mode")
		os.Exit(2)
	}
	rec.Write(*out)
}
