package misct

import (
	"testing"

	"verif/harness/h"
)

func TestMain(m *testing.M) { h.Main(m) }
