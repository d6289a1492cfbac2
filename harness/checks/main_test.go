package checks

import (
	"testing"

	"verif/harness/kit"
)

func TestProperty(t *testing.T) { kit.Main(t) }
