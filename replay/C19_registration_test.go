package tcpx

import "testing"

func TestReplayC19(t *testing.T) { vRegistration(t) }
