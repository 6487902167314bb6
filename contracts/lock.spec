// --- locks.  held(m): how this goroutine holds m: 0 not, 1 for reading, 2 for writing.
// Taking a lock is where what other goroutines did to the data it protects becomes visible;
// taking one that is already held would block for ever.
ghost held(m) : int;
stable ghost held;
extern "(*sync.RWMutex).Lock"(m) { requires m != nil; requires [does not wait for itself] held(m) == 0; modifies allmaps("map[string]*Context"); sets held(m) = 2; }
extern "(*sync.RWMutex).RLock"(m) { requires m != nil; requires [does not wait for itself] held(m) == 0; modifies allmaps("map[string]*Context"); sets held(m) = 1; }
extern "(*sync.RWMutex).Unlock"(m) { requires m != nil; requires [unlocks what is locked] held(m) == 2; sets held(m) = 0; }
extern "(*sync.RWMutex).RUnlock"(m) { requires m != nil; requires [unlocks what is locked] held(m) == 1; sets held(m) = 0; }
