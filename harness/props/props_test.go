package props

import "testing"

func TestExplore(t *testing.T) { MainExplore(t) }
func TestReplay(t *testing.T)  { MainReplay(t) }
func TestList(t *testing.T)    { MainList(t) }
