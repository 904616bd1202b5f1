package race

import (
	"testing"

	"verif/props"
)

func TestExplore(t *testing.T) { props.MainExplore(t) }
func TestReplay(t *testing.T)  { props.MainReplay(t) }
func TestList(t *testing.T)    { props.MainList(t) }
