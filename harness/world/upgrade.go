package world

import (
	"reflect"
	"sort"
	"unsafe"

	upgrade "github.com/cosmos/cosmos-sdk/x/upgrade/types"

	"github.com/arterynetwork/artr/app"
)

// upgradeHandlers is the map of the handlers an application has got.
func upgradeHandlers(a *app.ArteryApp) map[string]upgrade.UpgradeHandler {
	k := a.GetUpgradeKeeper()
	v := reflect.ValueOf(&k).Elem()
	var m map[string]upgrade.UpgradeHandler
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf(m) {
			m = *(*map[string]upgrade.UpgradeHandler)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	return m
}

// Upgrades are the names of the upgrades an application knows how to carry out.
func Upgrades(a *app.ArteryApp) (names []string) {
	for n := range upgradeHandlers(a) {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

// Outdate makes an application know nothing of any upgrade but the given ones, as the binaries of old do.
func Outdate(a *app.ArteryApp, but ...string) {
	m := upgradeHandlers(a)
next:
	for _, n := range Upgrades(a) {
		for _, b := range but {
			if n == b {
				continue next
			}
		}
		delete(m, n)
	}
}

// Restart replaces the node's binary: whatever has not been committed is lost.
func (w *World) Restart(a *app.ArteryApp) {
	w.App = a
	w.hookTasks()
	w.Dirty()
}
