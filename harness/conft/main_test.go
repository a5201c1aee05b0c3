package conft

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	"github.com/GalaIO/P2Pcrawler/config"
	"github.com/spf13/viper"
	"verif/harness/h"
)

// values are the settings a process sees.
type values struct {
	Port      int
	WorkPool  int
	Bootstrap []string
	Queue     int
	FetchPool int
	PProf     bool
	Level     string
}

func (v values) String() string {
	b, _ := json.Marshal(v)
	return string(b)
}

// read asks for the sections in a given order.
func read(order []int) (v values) {
	for _, s := range order {
		switch s {
		case 0:
			c := config.DhtConfig()
			v.Port, v.WorkPool, v.Bootstrap = c.Port, c.WorkPoolSize, append([]string{}, c.BootstrapNodes...)
		case 1:
			c := config.FetchTorrentConfig()
			v.Queue, v.FetchPool = c.InfoHashQueueSize, c.WorkPoolSize
		case 2:
			v.PProf = config.PProfConfig().NeedRun
		case 3:
			v.Level = config.LoggerConfig().Level
		}
	}
	return
}

// step of the helper process: switch to a file if one is named, and read
// sections.
type step struct {
	File  string
	Order []int
}

// The test binary doubles as a process that reads its configuration and
// reports what it sees.
func TestMain(m *testing.M) {
	if in := os.Getenv("VERIF_CONF_STEPS"); in != "" {
		var steps []step
		if err := json.Unmarshal([]byte(in), &steps); err != nil {
			os.Exit(3)
		}
		var r []values
		for _, s := range steps {
			if s.File != "" {
				viper.SetConfigFile(s.File)
				config.ResetConfig()
			}
			r = append(r, read(s.Order))
		}
		b, _ := json.Marshal(r)
		if os.WriteFile(os.Getenv("VERIF_CONF_OUT"), b, 0666) != nil {
			os.Exit(3)
		}
		os.Exit(0)
	}
	h.Main(m)
}

// see runs the helper in dir.
func see(dir string, steps []step) ([]values, error) {
	in, _ := json.Marshal(steps)
	out := filepath.Join(dir, "values.out")
	os.Remove(out)
	c := exec.Command(os.Args[0])
	c.Dir = dir
	c.Env = append(os.Environ(), "VERIF_CONF_STEPS="+string(in), "VERIF_CONF_OUT="+out, "VERIF_JOURNAL=", "VERIF_STATS=")
	var log bytes.Buffer
	c.Stdout, c.Stderr = &log, &log
	if err := c.Run(); err != nil {
		if x, ok := err.(*exec.ExitError); !ok || x.ExitCode() == 3 {
			h.Infra("helper: %v %s", err, log.String())
		}
		return nil, fmt.Errorf("reading the configuration failed: %v: %.1500s", err, log.String())
	}
	b, err := os.ReadFile(out)
	if err != nil {
		h.Infra("%v", err)
	}
	var r []values
	if err := json.Unmarshal(b, &r); err != nil || len(r) != len(steps) {
		h.Infra("helper: %v %s", err, b)
	}
	return r, nil
}
