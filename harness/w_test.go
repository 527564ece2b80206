package vh

import "testing"

func TestWorker(t *testing.T)       { RunWorker(t) }
func TestVictim(t *testing.T)       { RunVictim(t) }
func TestSecureVictim(t *testing.T) { RunSecureVictim(t) }
func TestReader(t *testing.T)       { RunReader(t) }
func TestUsage(t *testing.T)        { RunUsage(t) }
func TestSlowVictim(t *testing.T)   { RunSlowVictim(t) }
