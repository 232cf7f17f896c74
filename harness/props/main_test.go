package props

import (
	"fmt"
	"os"
	"testing"

	"verifharness/h"
)

func TestMain(m *testing.M) {
	Child()
	os.Exit(m.Run())
}

func TestProp(t *testing.T) { h.RunAll(t) }

func TestReplay(t *testing.T) {
	if err := h.Replay(os.Getenv("VERIF_REPLAY")); err != nil {
		fmt.Println(err)
		t.Fatal("violation reproduced")
	}
}
