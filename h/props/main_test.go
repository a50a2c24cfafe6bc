package props

import "testing"

func TestMainEntry(t *testing.T) { Main(t) }
