package props

import (
	"testing"

	"socketioverif/kit"
)

func TestProp(t *testing.T) { kit.Main(t) }
