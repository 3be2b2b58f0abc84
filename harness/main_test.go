package harness

import (
	"flag"
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	flag.Parse()
	switch os.Getenv("VH_MODE") {
	case "driver":
		os.Exit(RunDriver(os.Getenv("VH_PROP")))
	case "replay":
		os.Exit(RunReplay(os.Getenv("VH_PROP"), os.Getenv("VH_REPLAY")))
	case "shard", "child":
		m.Run()
		os.Exit(0)
	}
	die("VH_MODE not set")
}

func TestChild(t *testing.T) { RunChild(t) }
func TestShard(t *testing.T) { RunShard(t) }
