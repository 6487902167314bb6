package tcpx

import "testing"

func TestReplayC08(t *testing.T) { vRegistration(t) }
