package props

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"strconv"

	"github.com/dappnode/mev-sp-oracle/config"

	log "github.com/sirupsen/logrus"

	"verifharness/h"
)

// Child runs, in a process of its own, code under test that may end the process.
func Child() {
	switch os.Getenv("VERIF_CHILD") {
	case "":
		return
	case "cli":
		var args []string
		h.Must(json.Unmarshal([]byte(os.Getenv("VERIF_CHILD_ARG")), &args))
		os.Args = append([]string{"oracle"}, args...)
		flag.CommandLine = flag.NewFlagSet("oracle", flag.ExitOnError)
		log.StandardLogger().ExitFunc = os.Exit
		cfg, err := config.NewCliConfig()
		if err != nil {
			os.Exit(1)
		}
		fmt.Printf("\nCFG %s\n", asJSON(cfg))
	case "save":
		var c KillCase
		b, err := os.ReadFile(os.Getenv("VERIF_CHILD_ARG"))
		h.Must(err)
		h.Must(json.Unmarshal(b, &c))
		life, _ := strconv.Atoi(os.Getenv("VERIF_CHILD_LIFE"))
		saveForever(&c, life)
	}
	os.Exit(0)
}

// child runs this program as a child and returns its output.
func child(kind, arg string) (out []byte, code int) {
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+kind, "VERIF_CHILD_ARG="+arg, "VERIF_STATS=", "VERIF_REPLAY_OUT=")
	var b bytes.Buffer
	cmd.Stdout = &b
	err := cmd.Run()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic(h.Infra{Err: err})
		}
	}
	return b.Bytes(), cmd.ProcessState.ExitCode()
}
