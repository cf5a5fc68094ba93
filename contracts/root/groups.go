package textsecure

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/transport"
	v "github.com/signal-golang/textsecure/zzspec"
)

// A member that leaves is taken out and everybody listed before stays where they were.
//
//vc:prop C24
//vc:target root.removeMember
func vc_removeMemberBefore(tel string, members []string, i, k int) {
	v.Requires(i >= 0 && i < len(members) && members[i] == tel)
	v.Requires(v.Forall(0, i, func(j int) bool { return members[j] != tel }))
	v.Requires(k >= 0 && k < i)
	n, mk := len(members), members[k]
	out := removeMember(tel, members)
	v.Cover("removed")
	v.Ensures("remove: one less", len(out) == n-1)
	v.Ensures("remove: those before stay", out[k] == mk)
}

// A member that leaves is taken out and everybody listed after moves up by one.
//
//vc:prop C24
//vc:target root.removeMember
func vc_removeMemberAfter(tel string, members []string, i, k int) {
	v.Requires(i >= 0 && i < len(members) && members[i] == tel)
	v.Requires(v.Forall(0, i, func(j int) bool { return members[j] != tel }))
	v.Requires(k > i && k < len(members))
	n, mk := len(members), members[k]
	out := removeMember(tel, members)
	v.Cover("removed")
	v.Ensures("remove: one less", len(out) == n-1)
	v.Ensures("remove: those after stay", out[k-1] == mk)
}

// The list given is left alone.
//
//vc:prop C24
//vc:target root.removeMember
func vc_removeMemberShares(tel string, members []string, k int) {
	v.Requires(k >= 0 && k < len(members))
	n, mk := len(members), members[k]
	removeMember(tel, members)
	v.Cover("removed")
	v.Ensures("remove: the list given is left alone", len(members) == n && members[k] == mk)
}

// Removing somebody who is not in the list changes nothing.
//
//vc:prop C24
//vc:target root.removeMember
func vc_removeNobody(tel string, members []string, k int) {
	v.Requires(v.Forall(0, len(members), func(j int) bool { return members[j] != tel }))
	v.Requires(k >= 0 && k < len(members))
	n, mk := len(members), members[k]
	out := removeMember(tel, members)
	v.Cover("nobody")
	v.Ensures("remove: nobody", len(out) == n && out[k] == mk)
}

// Nobody leaves a group that is not known, and nothing changes.
//
//vc:prop C24
//vc:target root.quitGroup root.changeGroup root.GetGroupById root.LeaveGroup
func vc_unknownGroup(src, hexid, name string, members []string) {
	g := &Group{Hexid: "ab", Name: "kept"}
	groups = map[string]*Group{"ab": g}
	v.Requires(hexid != "ab")
	e1 := quitGroup(src, hexid)
	_, e2 := changeGroup(hexid, name, members)
	_, e3 := GetGroupById(hexid)
	e4 := LeaveGroup(hexid)
	v.Ensures("unknown group: an error", e1 != nil && e2 != nil && e3 != nil && e4 != nil)
	v.Ensures("unknown group: nothing changes", len(groups) == 1 && groups["ab"] == g && g.Name == "kept" && g.Members == nil)
	v.Cover("unknown")
}

type zzGroup struct {
	name    string
	members []string
}

// Any history of making, updating, leaving and quitting groups: each has exactly the name and members it was
// given, ourselves among those we made, nobody twice; whoever quits is out and everybody else in; and what is
// stored reads back the same.
//
//vc:prop C24
//vc:target root.newGroup root.changeGroup root.updateGroup root.quitGroup root.removeMember root.LeaveGroup root.removeGroup root.saveGroup root.loadGroup root.setupGroups
//vc:bounded
func vc_groupHistory(seed int) {
	r := rand.New(rand.NewSource(int64(seed)))
	dir := filepath.Join(v.TempDir(), []string{"x", "avatars", "a b"}[r.Intn(3)])
	v.Assume(os.MkdirAll(dir, 0700) == nil)
	us := "+4911"
	config.ConfigFile = &config.Config{StorageDir: dir, Tel: us}
	groups = map[string]*Group{}
	zzSetup(false)
	config.ConfigFile = &config.Config{StorageDir: dir, Tel: us}
	groups = map[string]*Group{}
	v.Assume(setupGroups() == nil)
	transport.ZZServe(func(transport.ZZReq) transport.ZZResp { return transport.ZZResp{Status: 500} })
	pool := []string{us, "+4912", "+4913", "+4914", "", "no: \"number\"\n", "\xff\x00", "- x", "00000000-0000-4000-8000-000000000001"}
	names := []string{"", "group", "a: b\n- c", "'", "null", "1e3", "\xfe", "~", "\u00e4\u2028"}
	model := map[string]*zzGroup{}
	var ids [][]byte
	list := func() []string {
		var l []string
		for n := r.Intn(5); n > 0; n-- {
			l = append(l, pool[r.Intn(len(pool))])
		}
		return append(make([]string, 0, len(l)+r.Intn(3)), l...)
	}
	set := func(l ...string) []string {
		var out []string
		for _, m := range l {
			if !zzHas(out, m) {
				out = append(out, m)
			}
		}
		return out
	}
	for k := 0; k < 8; k++ {
		var id []byte
		if len(ids) > 0 {
			id = ids[r.Intn(len(ids))]
		}
		hex := idToHex(id)
		name, l := names[r.Intn(len(names))], list()
		given := fmt.Sprintf("%q", l[:cap(l)])
		old := ""
		if g := groups[hex]; g != nil {
			old = strings.Join(g.Members, "|")
		}
		switch r.Intn(7) {
		case 0, 1:
			g, err := newGroup(name, l)
			v.Ensures("new group: made", err == nil && len(g.ID) == 16)
			ids = append(ids, g.ID)
			model[idToHex(g.ID)] = &zzGroup{name, set(append(append([]string{}, l...), us)...)}
			v.Cover("made")
		case 2:
			_, err := changeGroup(hex, name, l)
			v.Ensures("change: of a known group", (err == nil) == (model[hex] != nil))
			if err == nil {
				v.Cover("changed")
				model[hex] = &zzGroup{name, set(append(append([]string{}, l...), us)...)}
			}
		case 3:
			if r.Intn(4) == 0 {
				id = []byte{byte(r.Intn(3)), 7}
				ids = append(ids, id)
			}
			gc := &signalservice.GroupContext{Id: id, Name: &name, MembersE164: l}
			if r.Intn(5) == 0 {
				gc.Avatar = &signalservice.AttachmentPointer{}
			}
			err := updateGroup(gc)
			v.Ensures("update: of a group with an id", (err == nil) == (len(id) > 0 && gc.Avatar == nil))
			if err == nil {
				v.Cover("updated")
				model[idToHex(id)] = &zzGroup{name, set(l...)}
			}
		case 4, 5:
			src := pool[r.Intn(len(pool))]
			before := groups[hex]
			var held []string
			if before != nil {
				held = before.Members
			}
			err := quitGroup(src, hex)
			v.Ensures("quit: of a known group", (err == nil) == (model[hex] != nil))
			v.Ensures("quit: lists handed out stay as they were", strings.Join(held, "|") == old)
			if err == nil {
				v.Cover("quit")
				var rest []string
				for _, m := range model[hex].members {
					if m != src {
						rest = append(rest, m)
					}
				}
				model[hex].members = rest
			}
		case 6:
			err := LeaveGroup(hex)
			g := model[hex]
			alone := g != nil && (len(g.members) == 0 || len(g.members) == 1 && g.members[0] == us)
			v.Ensures("leave: only if everybody was told", (err == nil) == alone)
			if err == nil {
				v.Cover("left")
				delete(model, hex)
			}
		}
		v.Ensures("groups: the list given is left alone", fmt.Sprintf("%q", l[:cap(l)]) == given)
		if r.Intn(2) == 0 {
			v.Cover("read back")
			groups = map[string]*Group{}
			v.Ensures("groups: read back", setupGroups() == nil)
		}
		v.Ensures("groups: those there are", len(groups) == len(model))
		for h, m := range model {
			g := groups[h]
			v.Ensures("groups: as made and updated", g != nil && idToHex(g.ID) == h && g.Hexid == h && g.Name == m.name)
			v.Ensures("groups: exactly the members", fmt.Sprintf("%q", g.Members) == fmt.Sprintf("%q", m.members))
		}
	}
}

func zzHas(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func gen_vc_groupHistory(r *rand.Rand) []interface{} { return []interface{}{int(r.Int31())} }
func zzMembers(r *rand.Rand) []string {
	var l []string
	for n := r.Intn(6); n > 0; n-- {
		l = append(l, fmt.Sprint("+", r.Intn(6)))
	}
	return l
}
func gen_vc_removeMemberBefore(r *rand.Rand) []interface{} {
	l := append(zzMembers(r), "+8", "+9")
	return []interface{}{"+9", l, len(l) - 1, r.Intn(len(l) - 1)}
}
func gen_vc_removeMemberAfter(r *rand.Rand) []interface{} {
	l := append(append([]string{"+8", "+9"}, zzMembers(r)...), "+9", "+7")
	return []interface{}{"+9", l, 1, 2 + r.Intn(len(l)-2)}
}
func gen_vc_removeMemberShares(r *rand.Rand) []interface{} {
	l := append(zzMembers(r), "+9")
	return []interface{}{l[r.Intn(len(l))], l, r.Intn(len(l))}
}
func gen_vc_removeNobody(r *rand.Rand) []interface{} {
	l := append(zzMembers(r), "+9")
	return []interface{}{"+7", l, r.Intn(len(l))}
}
func gen_vc_unknownGroup(r *rand.Rand) []interface{} {
	return []interface{}{"+1", []string{"", "abc", "cd"}[r.Intn(3)], "name", zzMembers(r)}
}
