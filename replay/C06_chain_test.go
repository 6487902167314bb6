package tcpx

import "testing"

func TestReplayC06(t *testing.T) { vRegistration(t) }
