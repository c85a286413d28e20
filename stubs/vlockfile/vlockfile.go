// Package vlockfile models github.com/nightlyone/lockfile.
package vlockfile

import (
	"errors"
	"path/filepath"
)

type Lockfile string

type TemporaryError string

func (t TemporaryError) Error() string   { return string(t) }
func (t TemporaryError) Temporary() bool { return true }

var (
	ErrBusy          = TemporaryError("Locked by other process")
	ErrNotExist      = TemporaryError("Lockfile created, but doesn't exist")
	ErrNeedAbsPath   = errors.New("Lockfiles must be given as absolute path names")
	ErrInvalidPid    = errors.New("Lockfile contains invalid pid for system")
	ErrDeadOwner     = errors.New("Lockfile contains pid of process not existent on this system anymore")
	ErrRogueDeletion = errors.New("Lockfile owned by me has been removed unexpectedly")
)

var (
	held map[string]bool
	// Other holds the paths locked by another process.
	other map[string]bool
	// Fault gives the error an operation fails with (nil: none).
	Fault func(op, path string) error
	// Log of successful operations.
	Locks, Unlocks int
)

// Init releases all locks.
func Init() {
	held, other = map[string]bool{}, map[string]bool{}
	Fault = nil
	Locks, Unlocks = 0, 0
}

// Held tells whether this process holds the lock.
func Held(path string) bool { return held[path] }

// SetOther lets another process hold the lock.
func SetOther(path string, on bool) { other[path] = on }

func New(path string) (Lockfile, error) {
	if !filepath.IsAbs(path) {
		return Lockfile(""), ErrNeedAbsPath
	}
	if Fault != nil {
		if err := Fault("new", path); err != nil {
			return Lockfile(""), err
		}
	}
	return Lockfile(path), nil
}

func (l Lockfile) TryLock() error {
	if !filepath.IsAbs(string(l)) {
		panic(ErrNeedAbsPath)
	}
	if Fault != nil {
		if err := Fault("trylock", string(l)); err != nil {
			return err
		}
	}
	if other[string(l)] {
		return ErrBusy
	}
	held[string(l)] = true
	Locks++
	return nil
}

func (l Lockfile) Unlock() error {
	if Fault != nil {
		if err := Fault("unlock", string(l)); err != nil {
			return err
		}
	}
	if !held[string(l)] {
		return ErrRogueDeletion
	}
	delete(held, string(l))
	Unlocks++
	return nil
}
