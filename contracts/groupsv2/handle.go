package groupsv2

import (
	"math/rand"

	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/transport"
	v "github.com/signal-golang/textsecure/zzspec"
	"google.golang.org/protobuf/proto"
)

// A received change that the server did not sign is refused and has no effect on the group; nothing
// received, however malformed, crashes the client.
//
//vc:prop C17 C19
//vc:target groupsv2.HandleGroupsV2
//vc:bounded
func vc_handleChange(key []byte, context bool, revision uint32, change []byte, actions, signature []byte, wrap bool, known bool) {
	transport.ZZServe(func(q transport.ZZReq) transport.ZZResp { return transport.ZZResp{Status: 404} })
	config.ConfigFile = &config.Config{UUID: "00000000-0000-4000-8000-000000000001"}
	groupV2Dir = v.TempDir()
	groupsV2 = map[string]*GroupV2{}
	Credentials = nil
	hexid := idToHex(key)
	if known {
		groupsV2[hexid] = &GroupV2{MasterKey: key, Hexid: hexid, Revision: 4, DecryptedGroup: &signalservice.DecryptedGroup{Title: "kept", Revision: 4}}
		groupsV2[hexid].GroupContext.Title = []byte("x")
		v.Requires(len(key) > 0 && saveGroupV2(hexid) == nil)
	}
	if wrap {
		change, _ = proto.Marshal(&signalservice.GroupChange{Actions: actions, ServerSignature: signature})
	}
	dm := &signalservice.DataMessage{}
	if context {
		dm.GroupV2 = &signalservice.GroupContextV2{MasterKey: key, Revision: &revision, GroupChange: change}
	}
	g, err := HandleGroupsV2("somebody", dm)
	if !context {
		v.Ensures("group message: nothing without a group", g == nil && err == nil)
		return
	}
	if wrap && len(actions) > 0 {
		v.Cover("unsigned")
		v.Ensures("group message: an unsigned change is refused", err != nil && g == nil)
		if known {
			k := groupsV2[hexid]
			v.Ensures("group message: an unsigned change has no effect", k != nil && k.GroupAction == nil && k.Revision == 4 && k.DecryptedGroup.GetTitle() == "kept" && k.DecryptedGroup.GetRevision() == 4)
		}
	}
}

func gen_vc_handleChange(r *rand.Rand) []interface{} {
	key := v.Repeat(byte(r.Intn(256)), 32)
	if r.Intn(4) == 0 {
		key = v.RandBytes(r)
		if len(key) > 60 {
			key = key[:60]
		}
	}
	a := &signalservice.GroupChange_Actions{Revision: uint32(r.Intn(9)), SourceUuid: v.RandBytes(r)}
	if r.Intn(2) == 0 {
		a.AddMembers = append(a.AddMembers, &signalservice.GroupChange_Actions_AddMemberAction{})
		a.AddMembers = append(a.AddMembers, &signalservice.GroupChange_Actions_AddMemberAction{Added: &signalservice.Member{UserId: v.RandBytes(r)}})
		a.AddPendingMembers = append(a.AddPendingMembers, &signalservice.GroupChange_Actions_AddPendingMemberAction{})
		a.ModifyTitle = &signalservice.GroupChange_Actions_ModifyTitleAction{Title: []byte("taken over")}
	}
	b, _ := proto.Marshal(a)
	if r.Intn(4) == 0 {
		b = v.RandBytes(r)
	}
	sig := make([]byte, 64)
	v.Fill(r, sig)
	if r.Intn(4) == 0 {
		sig = v.RandBytes(r)
	}
	return []interface{}{key, r.Intn(8) > 0, uint32(r.Intn(9)), v.RandBytes(r), b, sig, r.Intn(3) > 0, r.Intn(2) == 0}
}

func zzCipherGroup(key []byte) *GroupV2 {
	g := &GroupV2{MasterKey: key}
	if g.checkCipher() != nil {
		return nil
	}
	return g
}

// What the server sends for a group is decrypted to exactly what was encrypted under the group's key:
// the title, the revision, the access control, and every member with its role; an undecryptable answer
// leaves the known state alone.
//
//vc:prop C18
//vc:target groupsv2.GroupV2.decryptGroupFromServer
//vc:bounded
func vc_fromServer(key []byte, title []byte, revision uint32, ids [][]byte, roles []int, keys [][]byte, mine int, spoil int) {
	config.ConfigFile = &config.Config{UUID: "00000000-0000-4000-8000-000000000001"}
	c := zzCipherGroup(key)
	v.Requires(c != nil)
	sg := &signalservice.Group{Revision: revision, AccessControl: &signalservice.AccessControl{Members: signalservice.AccessControl_ADMINISTRATOR}}
	t, err := c.cipher.EncryptBlob(title)
	v.Requires(err == nil)
	if spoil == 1 {
		t[len(t)/2] ^= 1
	}
	if spoil == 2 {
		t = t[:len(t)%30]
	}
	sg.Title = t
	for i := range ids {
		if i == mine {
			ids[i] = uuidToByte(config.ConfigFile.UUID)
		}
		u, err := c.cipher.EncryptUUID(ids[i])
		v.Requires(err == nil)
		sg.Members = append(sg.Members, &signalservice.Member{UserId: u, Role: signalservice.Member_Role(roles[i]), ProfileKey: keys[i], JoinedAtRevision: uint32(i)})
	}
	g := &GroupV2{MasterKey: key, JoinStatus: GroupV2JoinsStatusRequest, DecryptedGroup: &signalservice.DecryptedGroup{Title: "kept", Revision: 4}}
	err = g.decryptGroupFromServer(sg)
	if spoil == 1 || spoil == 2 {
		v.Cover("spoiled")
		v.Ensures("group from server: an undecryptable group is refused", err != nil)
		v.Ensures("group from server: a refused group leaves the known state alone", g.JoinStatus == GroupV2JoinsStatusRequest && g.DecryptedGroup.GetTitle() == "kept" && g.DecryptedGroup.GetRevision() == 4 && len(g.GroupContext.Members) == 0)
		return
	}
	v.Cover("decrypted")
	v.Ensures("group from server: decrypted", err == nil && g.DecryptedGroup != nil)
	d := g.DecryptedGroup
	v.Ensures("group from server: title, revision and access control", d.Title == string(title) && d.Revision == revision && d.AccessControl.GetMembers() == signalservice.AccessControl_ADMINISTRATOR)
	v.Ensures("group from server: every member", len(d.Members) == len(ids))
	for i := range d.Members {
		v.Ensures("group from server: each member with its role", string(d.Members[i].Uuid) == string(ids[i]) && int(d.Members[i].Role) == roles[i] && d.Members[i].JoinedAtRevision == uint32(i))
	}
	v.Ensures("group from server: own membership", (g.JoinStatus == GroupV2JoinsStatusMember) == (mine >= 0 && mine < len(ids)))
}

func gen_vc_fromServer(r *rand.Rand) []interface{} {
	n := r.Intn(4)
	ids, roles, keys := [][]byte{}, []int{}, [][]byte{}
	for i := 0; i < n; i++ {
		id := make([]byte, 16)
		v.Fill(r, id)
		ids, roles, keys = append(ids, id), append(roles, r.Intn(3)), append(keys, v.RandBytes(r))
	}
	title := []string{"", "a", "a group", "Grüße", "a much longer title that takes more than one block of the cipher"}[r.Intn(5)]
	key := make([]byte, 32)
	v.Fill(r, key)
	return []interface{}{key, []byte(title), r.Uint32(), ids, roles, keys, r.Intn(5), r.Intn(4)}
}

// No change, however malformed its parts, crashes the client; what is decrypted from it is what the sender encrypted.
//
//vc:prop C18 C19
//vc:target groupsv2.GroupV2.decryptGroupChangeActions
//vc:bounded
func vc_decryptChange(key []byte, a *signalservice.GroupChange_Actions, good bool, id []byte, role int) {
	g := &GroupV2{MasterKey: key}
	u := []byte(nil)
	if good {
		c := zzCipherGroup(key)
		v.Requires(c != nil && len(id) == 16)
		var err error
		u, err = c.cipher.EncryptUUID(id)
		v.Requires(err == nil)
		a.AddMembers = append(a.AddMembers, &signalservice.GroupChange_Actions_AddMemberAction{Added: &signalservice.Member{UserId: u, Role: signalservice.Member_Role(role)}})
		a.DeleteMembers = append(a.DeleteMembers, &signalservice.GroupChange_Actions_DeleteMemberAction{DeletedUserId: u})
		a.ModifyMemberRoles = append(a.ModifyMemberRoles, &signalservice.GroupChange_Actions_ModifyMemberRoleAction{UserId: u, Role: signalservice.Member_Role(role)})
		a.AddPendingMembers = append(a.AddPendingMembers, &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{Member: &signalservice.Member{UserId: u, Role: signalservice.Member_Role(role)}, AddedByUserId: u}})
	}
	d := g.decryptGroupChangeActions(a)
	if len(key) != 32 {
		v.Ensures("group change: nothing without a key", d == nil)
		return
	}
	v.Ensures("group change: revision", d != nil && d.Revision == a.GetRevision())
	if good {
		v.Cover("good")
		nm, np := d.NewMembers, d.NewPendingMembers
		v.Ensures("group change: added member", len(nm) > 0 && string(nm[len(nm)-1].Uuid) == string(id) && int(nm[len(nm)-1].Role) == role)
		v.Ensures("group change: removed member", len(d.DeleteMembers) > 0 && string(d.DeleteMembers[len(d.DeleteMembers)-1]) == string(id))
		mr := d.ModifyMemberRoles
		v.Ensures("group change: role", len(mr) > 0 && string(mr[len(mr)-1].Uuid) == string(id) && int(mr[len(mr)-1].Role) == role)
		v.Ensures("group change: invited member", len(np) > 0 && string(np[len(np)-1].Uuid) == string(id) && int(np[len(np)-1].Role) == role && string(np[len(np)-1].AddedByUuid) == string(id) && string(np[len(np)-1].UuidCipherText) == string(u))
	}
}

func gen_vc_decryptChange(r *rand.Rand) []interface{} {
	key := make([]byte, 32)
	v.Fill(r, key)
	good := r.Intn(3) > 0
	if !good && r.Intn(3) == 0 {
		key = v.RandBytes(r)
	}
	junk := func() []byte {
		switch r.Intn(4) {
		case 0:
			return nil
		case 1:
			b := make([]byte, 65)
			v.Fill(r, b)
			return b
		}
		return v.RandBytes(r)
	}
	a := &signalservice.GroupChange_Actions{Revision: r.Uint32(), SourceUuid: junk()}
	for r.Intn(2) == 0 {
		switch r.Intn(8) {
		case 0:
			a.AddMembers = append(a.AddMembers, &signalservice.GroupChange_Actions_AddMemberAction{})
		case 1:
			a.AddMembers = append(a.AddMembers, &signalservice.GroupChange_Actions_AddMemberAction{Added: &signalservice.Member{UserId: junk(), ProfileKey: junk(), Presentation: junk()}})
		case 2:
			a.DeleteMembers = append(a.DeleteMembers, &signalservice.GroupChange_Actions_DeleteMemberAction{DeletedUserId: junk()})
		case 3:
			a.ModifyMemberRoles = append(a.ModifyMemberRoles, &signalservice.GroupChange_Actions_ModifyMemberRoleAction{UserId: junk()})
		case 4:
			a.AddPendingMembers = append(a.AddPendingMembers, &signalservice.GroupChange_Actions_AddPendingMemberAction{})
		case 5:
			a.AddPendingMembers = append(a.AddPendingMembers, &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{Member: &signalservice.Member{UserId: junk()}, AddedByUserId: junk()}})
		case 6:
			a.AddPendingMembers = append(a.AddPendingMembers, &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{}})
		case 7:
			a.DeletePendingMembers = append(a.DeletePendingMembers, &signalservice.GroupChange_Actions_DeletePendingMemberAction{DeletedUserId: junk()})
		}
	}
	id := make([]byte, 16)
	v.Fill(r, id)
	return []interface{}{key, a, good, id, 1 + r.Intn(2)}
}

// A group that was saved is found again, after a restart, with the same key, revision, membership and title.
//
//vc:prop C18
//vc:target groupsv2.saveGroupV2 groupsv2.loadGroupV2 groupsv2.FindGroup
//vc:bounded
func vc_savedGroup(key []byte, title string, revision uint32, ids [][]byte, roles []int, status int) {
	groupV2Dir = v.TempDir()
	groupsV2 = map[string]*GroupV2{}
	hexid := idToHex(key)
	d := &signalservice.DecryptedGroup{Title: title, Revision: revision, AccessControl: &signalservice.AccessControl{Attributes: signalservice.AccessControl_MEMBER}}
	for i := range ids {
		d.Members = append(d.Members, &signalservice.DecryptedMember{Uuid: ids[i], Role: signalservice.Member_Role(roles[i])})
	}
	groupsV2[hexid] = &GroupV2{MasterKey: key, Hexid: hexid, DecryptedGroup: d, Revision: revision, JoinStatus: status}
	v.Ensures("group record: saved", saveGroupV2(hexid) == nil)
	groupsV2 = map[string]*GroupV2{}
	g := FindGroup(hexid)
	v.Ensures("group record: found", g != nil && g.DecryptedGroup != nil)
	v.Ensures("group record: same", string(g.MasterKey) == string(key) && g.Hexid == hexid && g.Revision == revision && g.JoinStatus == status)
	e := g.DecryptedGroup
	v.Ensures("group record: same state", e.Title == title && e.Revision == revision && e.AccessControl.GetAttributes() == signalservice.AccessControl_MEMBER && len(e.Members) == len(ids))
	for i := range ids {
		v.Ensures("group record: same members", string(e.Members[i].Uuid) == string(ids[i]) && int(e.Members[i].Role) == roles[i])
	}
}

func gen_vc_savedGroup(r *rand.Rand) []interface{} {
	a := gen_vc_fromServer(r)
	return []interface{}{a[0], string(a[1].([]byte)), a[2], a[3], a[4], r.Intn(4)}
}
