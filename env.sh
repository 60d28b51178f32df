# Environment shared by every command in /verif.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GONOSUMDB='*' GOFLAGS=-mod=mod GONOPROXY= GOSUMDB=off TZ=UTC
unset GOHBCI_TEST_E2E_CLIENT
