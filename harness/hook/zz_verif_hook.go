package main

import (
	"os"

	"github.com/g-rath/osv-detector/internal/zzverif"
)

// Overlaid into package main by /verif/bin/check; never part of /repo.
// It takes over the process when a verification worker is requested.
func init() {
	if os.Getenv("VERIF_WORKER") != "" {
		zzverif.Main(run)
	}
}
