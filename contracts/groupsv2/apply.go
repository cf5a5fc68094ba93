package groupsv2

import (
	"encoding/base64"
	"math/rand"

	"github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/entities"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	v "github.com/signal-golang/textsecure/zzspec"
	"google.golang.org/protobuf/proto"
)

// zzWorld: a group before a change, and who changes it.
type zzWorld struct {
	user     *entities.GroupUser
	key      []byte
	d        *signalservice.DecryptedGroup
	revision uint32
	given    []byte
}

func (w zzWorld) groups() (g, before *GroupV2) {
	mk := func() *GroupV2 {
		return &GroupV2{MasterKey: w.key, Hexid: "00ff", Revision: w.revision, DecryptedGroup: proto.Clone(w.d).(*signalservice.DecryptedGroup)}
	}
	return mk(), mk()
}

func (w zzWorld) member(id []byte) *signalservice.DecryptedMember {
	for _, m := range w.d.Members {
		if string(m.Uuid) == string(id) {
			return m
		}
	}
	return nil
}
func (w zzWorld) pending(id []byte) *signalservice.DecryptedPendingMember {
	for _, m := range w.d.PendingMembers {
		if string(m.Uuid) == string(id) {
			return m
		}
	}
	return nil
}
func (w zzWorld) requesting(id []byte) *signalservice.DecryptedRequestingMember {
	for _, m := range w.d.RequestingMembers {
		if string(m.Uuid) == string(id) {
			return m
		}
	}
	return nil
}
func (w zzWorld) self(id []byte) bool {
	return string(w.user.UserCiphertext) == string(id) && string(w.user.GroupPublicKey) == string(w.key)
}
func (w zzWorld) me() *signalservice.DecryptedMember {
	if string(w.user.GroupPublicKey) != string(w.key) {
		return nil
	}
	return w.member(w.user.UserCiphertext)
}
func (w zzWorld) admin() bool { m := w.me(); return m != nil && m.Role == zzAdm }

func zzDistinct(ids [][]byte) bool {
	seen := map[string]bool{}
	for _, id := range ids {
		if seen[string(id)] {
			return false
		}
		seen[string(id)] = true
	}
	return true
}
func zzHas(ids [][]byte, id []byte) bool {
	for _, i := range ids {
		if string(i) == string(id) {
			return true
		}
	}
	return false
}

// settled: after the change, err says whether it was refused; if so nothing changed, if not the group
// is what was expected of an allowed change. The group the rules were judged on is never touched.
func (w zzWorld) settled(err error, ok bool, g, before *GroupV2, want *signalservice.DecryptedGroup) {
	v.Ensures("change: accepted exactly if allowed and applicable", (err == nil) == ok)
	v.Ensures("change: the group it is judged on stays", proto.Equal(before.DecryptedGroup, w.d))
	if !ok {
		v.Cover("refused")
		v.Ensures("change: refused as a whole", proto.Equal(g.DecryptedGroup, w.d) && g.Revision == w.revision)
		return
	}
	v.Cover("applied")
	for _, p := range g.DecryptedGroup.PendingMembers { // the time of an invitation is the clock's
		for _, q := range want.PendingMembers {
			if q.Timestamp == 0 && string(p.Uuid) == string(q.Uuid) {
				q.Timestamp = p.Timestamp
			}
		}
	}
	v.Ensures("change: exactly what it says", proto.Equal(g.DecryptedGroup, want))
	var all [][]byte
	for _, m := range g.DecryptedGroup.Members {
		all = append(all, m.Uuid)
	}
	n := len(all)
	for _, m := range g.DecryptedGroup.PendingMembers {
		all = append(all, m.Uuid)
	}
	v.Ensures("change: no user twice", zzDistinct(all))
	all = all[:n]
	for _, m := range g.DecryptedGroup.RequestingMembers {
		all = append(all, m.Uuid)
	}
	v.Ensures("change: no user twice", zzDistinct(all))
}

// Removing members.
//
//vc:prop C17 C18
//vc:target (*groupsv2.GroupChangeApplicator).ApplyDeleteMembers
//vc:bounded
func vc_applyDelete(w zzWorld, ids [][]byte) {
	g, before := w.groups()
	want := proto.Clone(w.d).(*signalservice.DecryptedGroup)
	var as []*signalservice.GroupChange_Actions_DeleteMemberAction
	ok := w.admin() || (len(ids) == 1 && w.self(ids[0]))
	for _, id := range ids {
		as = append(as, &signalservice.GroupChange_Actions_DeleteMemberAction{DeletedUserId: id})
		ok = ok && w.member(id) != nil
	}
	ok = len(ids) == 0 || (ok && zzDistinct(ids))
	want.Members = nil
	for _, m := range w.d.Members {
		if !zzHas(ids, m.Uuid) {
			want.Members = append(want.Members, m)
		}
	}
	err := zzApplicator().ApplyDeleteMembers(w.user, w.given, g, as, before)
	w.settled(err, ok, g, before, want)
}

// Withdrawing invitations.
//
//vc:prop C17 C18
//vc:target (*groupsv2.GroupChangeApplicator).ApplyDeleteMembersPendingProfileKey
//vc:bounded
func vc_applyDeletePending(w zzWorld, ids [][]byte) {
	g, before := w.groups()
	want := proto.Clone(w.d).(*signalservice.DecryptedGroup)
	var as []*signalservice.GroupChange_Actions_DeletePendingMemberAction
	ok := w.admin() || (len(ids) == 1 && w.self(ids[0]))
	for _, id := range ids {
		as = append(as, &signalservice.GroupChange_Actions_DeletePendingMemberAction{DeletedUserId: id})
		ok = ok && w.pending(id) != nil
	}
	ok = len(ids) == 0 || (ok && zzDistinct(ids))
	want.PendingMembers = nil
	for _, m := range w.d.PendingMembers {
		if !zzHas(ids, m.Uuid) {
			want.PendingMembers = append(want.PendingMembers, m)
		}
	}
	err := zzApplicator().ApplyDeleteMembersPendingProfileKey(w.user, w.given, g, as, before)
	w.settled(err, ok, g, before, want)
}

// Turning down requests to join.
//
//vc:prop C17 C18
//vc:target (*groupsv2.GroupChangeApplicator).ApplyDeleteMembersPendingAdminApproval
//vc:bounded
func vc_applyDeleteRequesting(w zzWorld, ids [][]byte) {
	g, before := w.groups()
	want := proto.Clone(w.d).(*signalservice.DecryptedGroup)
	var as []*signalservice.GroupChange_Actions_DeleteRequestingMemberAction
	ok := w.admin() || (len(ids) == 1 && w.self(ids[0]))
	for _, id := range ids {
		as = append(as, &signalservice.GroupChange_Actions_DeleteRequestingMemberAction{DeletedUserId: id})
		ok = ok && w.requesting(id) != nil
	}
	ok = len(ids) == 0 || (ok && zzDistinct(ids))
	want.RequestingMembers = nil
	for _, m := range w.d.RequestingMembers {
		if !zzHas(ids, m.Uuid) {
			want.RequestingMembers = append(want.RequestingMembers, m)
		}
	}
	err := zzApplicator().ApplyDeleteMembersPendingAdminApproval(w.user, w.given, g, as, before)
	w.settled(err, ok, g, before, want)
}

// Granting requests to join.
//
//vc:prop C17 C18
//vc:target (*groupsv2.GroupChangeApplicator).ApplyPromotePendingAdminApproval
//vc:bounded
func vc_applyPromoteRequesting(w zzWorld, ids [][]byte, role int32) {
	g, before := w.groups()
	want := proto.Clone(w.d).(*signalservice.DecryptedGroup)
	as := []*signalservice.GroupChange_Actions_PromoteRequestingMemberAction{}
	ok := w.admin()
	for _, id := range ids {
		as = append(as, &signalservice.GroupChange_Actions_PromoteRequestingMemberAction{UserId: id, Role: signalservice.Member_Role(role)})
		rq := w.requesting(id)
		ok = ok && rq != nil && w.member(id) == nil
		if rq != nil {
			want.Members = append(want.Members, &signalservice.DecryptedMember{Uuid: id, Role: signalservice.Member_Role(role), ProfileKey: rq.ProfileKey, JoinedAtRevision: w.revision + 1})
		}
	}
	ok = ok && zzDistinct(ids)
	want.RequestingMembers = nil
	for _, m := range w.d.RequestingMembers {
		if !zzHas(ids, m.Uuid) {
			want.RequestingMembers = append(want.RequestingMembers, m)
		}
	}
	err := zzApplicator().ApplyPromotePendingAdminApproval(w.user, w.given, g, as, before)
	w.settled(err, ok, g, before, want)
}

// Asking to join by invite link: only for oneself, and not from inside.
//
//vc:prop C17 C18
//vc:target (*groupsv2.GroupChangeApplicator).ApplyAddMembersPendingAdminApproval
//vc:bounded
func vc_applyAskToJoin(w zzWorld, ids [][]byte) {
	v.Requires(len(ids) > 0)
	g, before := w.groups()
	want := proto.Clone(w.d).(*signalservice.DecryptedGroup)
	as := []*signalservice.GroupChange_Actions_AddRequestingMemberAction{}
	for i, id := range ids {
		as = append(as, &signalservice.GroupChange_Actions_AddRequestingMemberAction{Added: &signalservice.RequestingMember{UserId: id, ProfileKey: []byte{byte(i), 1}, Timestamp: 77}})
	}
	ok := w.d.GetAccessControl().GetAddFromInviteLink() == signalservice.AccessControl_ADMINISTRATOR && string(w.d.InviteLinkPassword) == string(w.given) &&
		len(ids) == 1 && w.self(ids[0]) && w.member(ids[0]) == nil && w.pending(ids[0]) == nil && w.requesting(ids[0]) == nil
	want.RequestingMembers = append(want.RequestingMembers, &signalservice.DecryptedRequestingMember{Uuid: ids[0], ProfileKey: []byte{0, 1}, Timestamp: 77})
	err := zzApplicator().ApplyAddMembersPendingAdminApproval(w.user, w.given, g, as, before)
	w.settled(err, ok, g, before, want)
}

// Inviting.
//
//vc:prop C17 C18
//vc:target (*groupsv2.GroupChangeApplicator).ApplyAddMembersPendingProfileKeys
//vc:bounded
func vc_applyInvite(w zzWorld, ids [][]byte, role, last int32, odd int) {
	g, before := w.groups()
	want := proto.Clone(w.d).(*signalservice.DecryptedGroup)
	me := w.me()
	acc := w.d.GetAccessControl().GetMembers()
	ok := me != nil && (me.Role == zzAdm || acc == signalservice.AccessControl_MEMBER || acc == signalservice.AccessControl_ANY)
	var as []*signalservice.GroupChange_Actions_AddPendingMemberAction
	for i, id := range ids {
		m := &signalservice.Member{UserId: id, Role: signalservice.Member_Role(role)}
		if i == len(ids)-1 {
			m.Role = signalservice.Member_Role(last)
			if odd == 1 {
				m.ProfileKey = []byte{1}
			}
			if odd == 2 {
				m.Presentation = []byte{1}
			}
		}
		a := &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{Member: m}}
		if i == len(ids)-1 && odd == 3 {
			a.Added.Member = nil
		}
		ok = ok && len(id) > 0 && a.Added.Member != nil && len(m.ProfileKey) == 0 && len(m.Presentation) == 0 && m.Role != signalservice.Member_UNKNOWN &&
			(m.Role != zzAdm || w.admin()) && w.member(id) == nil && w.pending(id) == nil
		as = append(as, a)
		if me != nil {
			want.PendingMembers = append(want.PendingMembers, &signalservice.DecryptedPendingMember{Uuid: id, Role: m.Role, AddedByUuid: me.Uuid})
		}
	}
	ok = len(ids) == 0 || (ok && zzDistinct(ids))
	err := zzApplicator().ApplyAddMembersPendingProfileKeys(w.user, w.given, g, as, before)
	w.settled(err, ok, g, before, want)
}

func gen_vc_applyInvite(r *rand.Rand) []interface{} {
	odd := 0
	if r.Intn(5) == 0 {
		odd = r.Intn(4)
	}
	return append(zzGenPlain(r), zzRole(r), zzRole(r), odd)
}
func zzRole(r *rand.Rand) int32 {
	if r.Intn(3) > 0 {
		return int32(signalservice.Member_DEFAULT)
	}
	return int32(r.Intn(4))
}

// Adding members.
//
//vc:prop C17 C18
//vc:target (*groupsv2.GroupChangeApplicator).ApplyAddMembers
//vc:bounded
func vc_applyAdd(w zzWorld, ids [][]byte, role, last int32, odd bool) {
	g, before := w.groups()
	want := proto.Clone(w.d).(*signalservice.DecryptedGroup)
	me := w.me()
	ac := w.d.GetAccessControl()
	ok := false
	if me != nil {
		ok = me.Role == zzAdm || (me.Role == signalservice.Member_DEFAULT && (ac.GetMembers() == signalservice.AccessControl_MEMBER || ac.GetMembers() == signalservice.AccessControl_ANY))
	} else {
		ok = (ac.GetMembers() == signalservice.AccessControl_ANY || (ac.GetAddFromInviteLink() == signalservice.AccessControl_ANY && string(w.given) == string(w.d.InviteLinkPassword))) &&
			len(ids) == 1 && w.self(ids[0])
	}
	var as []*signalservice.GroupChange_Actions_AddMemberAction
	for i, id := range ids {
		m := &signalservice.Member{UserId: id, Role: signalservice.Member_Role(role), ProfileKey: []byte{byte(i), 2}}
		if i == len(ids)-1 {
			m.Role = signalservice.Member_Role(last)
			if odd {
				m.ProfileKey = nil
			}
		}
		as = append(as, &signalservice.GroupChange_Actions_AddMemberAction{Added: m})
		ok = ok && len(id) > 0 && len(m.ProfileKey) > 0 && m.Role != signalservice.Member_UNKNOWN && (m.Role != zzAdm || w.admin()) && w.member(id) == nil
		want.Members = append(want.Members, &signalservice.DecryptedMember{Uuid: id, Role: m.Role, ProfileKey: m.ProfileKey, JoinedAtRevision: w.revision + 1})
	}
	ok = len(ids) == 0 || (ok && zzDistinct(ids))
	want.PendingMembers, want.RequestingMembers = nil, nil
	for _, m := range w.d.PendingMembers {
		if !zzHas(ids, m.Uuid) {
			want.PendingMembers = append(want.PendingMembers, m)
		}
	}
	for _, m := range w.d.RequestingMembers {
		if !zzHas(ids, m.Uuid) {
			want.RequestingMembers = append(want.RequestingMembers, m)
		}
	}
	err := zzApplicator().ApplyAddMembers(w.user, w.given, g, as, before)
	w.settled(err, ok, g, before, want)
}

func gen_vc_applyAdd(r *rand.Rand) []interface{} {
	return append(zzGenPlain(r), zzRole(r), zzRole(r), r.Intn(8) == 0)
}

// Changing roles.
//
//vc:prop C17 C18
//vc:target (*groupsv2.GroupChangeApplicator).ApplyModifyMemberRoles
//vc:bounded
func vc_applyRoles(w zzWorld, ids [][]byte, role, last int32) {
	g, before := w.groups()
	want := proto.Clone(w.d).(*signalservice.DecryptedGroup)
	ok := w.admin()
	var as []*signalservice.GroupChange_Actions_ModifyMemberRoleAction
	for i, id := range ids {
		to := signalservice.Member_Role(role)
		if i == len(ids)-1 {
			to = signalservice.Member_Role(last)
		}
		as = append(as, &signalservice.GroupChange_Actions_ModifyMemberRoleAction{UserId: id, Role: to})
		ok = ok && len(id) > 0 && w.member(id) != nil && to != signalservice.Member_UNKNOWN
		for _, m := range want.Members {
			if string(m.Uuid) == string(id) {
				m.Role = to
			}
		}
	}
	ok = len(ids) == 0 || (ok && zzDistinct(ids))
	err := zzApplicator().ApplyModifyMemberRoles(w.user, w.given, g, as, before)
	w.settled(err, ok, g, before, want)
}

func gen_vc_applyRoles(r *rand.Rand) []interface{} {
	return append(zzGenNamed(r, 0), zzRole(r), zzRole(r))
}
func gen_vc_applyDelete(r *rand.Rand) []interface{}           { return zzGenNamed(r, 0) }
func gen_vc_applyDeletePending(r *rand.Rand) []interface{}    { return zzGenNamed(r, 1) }
func gen_vc_applyDeleteRequesting(r *rand.Rand) []interface{} { return zzGenNamed(r, 2) }
func gen_vc_applyPromoteRequesting(r *rand.Rand) []interface{} {
	return append(zzGenNamed(r, 2), zzRole(r))
}
func gen_vc_applyAskToJoin(r *rand.Rand) []interface{} {
	g := zzGenPlain(r)
	w := g[0].(zzWorld)
	ids := [][]byte{w.user.UserCiphertext}
	if r.Intn(4) == 0 {
		ids = g[1].([][]byte)
	}
	w.d.AccessControl.AddFromInviteLink = signalservice.AccessControl_ADMINISTRATOR
	if r.Intn(5) == 0 {
		w.d.AccessControl.AddFromInviteLink = signalservice.AccessControl_AccessRequired(r.Intn(6))
	}
	return []interface{}{w, ids}
}

func zzApplicator() *GroupChangeApplicator { return NewGroupChangeApplicator(&GroupValidator{}) }

// zzGenWorld: a group of distinct users, changed mostly by one of its members.
func zzGenWorld(r *rand.Rand) (zzWorld, [][]byte) {
	key := zzID(r)
	d := &signalservice.DecryptedGroup{Title: "title", Avatar: "av", Revision: uint32(r.Intn(9)), Description: "text", InviteLinkPassword: []byte{byte(r.Intn(2)), 9},
		AccessControl: &signalservice.AccessControl{
			Attributes:        signalservice.AccessControl_AccessRequired(r.Intn(5)),
			Members:           signalservice.AccessControl_AccessRequired(r.Intn(5)),
			AddFromInviteLink: signalservice.AccessControl_AccessRequired(r.Intn(5)),
		}}
	var ids [][]byte
	p := r.Perm(12)
	for i := 0; i < 12; i++ {
		id := append([]byte{byte(p[i]) + 1}, make([]byte, 15)...)
		if p[i] == 11 {
			id = id[:15]
		}
		ids = append(ids, id)
	}
	n := 0
	next := func() []byte { n++; return ids[n-1] }
	for i := r.Intn(4); i > 0; i-- {
		role := signalservice.Member_Role(1 + r.Intn(2))
		if r.Intn(12) == 0 {
			role = 0
		}
		d.Members = append(d.Members, &signalservice.DecryptedMember{Uuid: next(), Role: role, ProfileKey: []byte{byte(n), 3}, JoinedAtRevision: uint32(r.Intn(4))})
	}
	for i := r.Intn(3); i > 0; i-- {
		d.PendingMembers = append(d.PendingMembers, &signalservice.DecryptedPendingMember{Uuid: next(), Role: signalservice.Member_Role(1 + r.Intn(2)), AddedByUuid: ids[0], Timestamp: uint64(1 + r.Intn(9))})
	}
	for i := r.Intn(3); i > 0; i-- {
		d.RequestingMembers = append(d.RequestingMembers, &signalservice.DecryptedRequestingMember{Uuid: next(), ProfileKey: []byte{byte(n), 4}, Timestamp: uint64(r.Intn(9))})
	}
	w := zzWorld{key: key, d: d, revision: uint32(r.Intn(5)), given: []byte{1, 9}}
	who := ids[r.Intn(n+2)]
	if len(d.Members) > 0 && r.Intn(3) > 0 {
		m := d.Members[r.Intn(len(d.Members))]
		who = m.Uuid
		if r.Intn(2) == 0 {
			m.Role = zzAdm
		}
	}
	gk := append([]byte(nil), key...)
	if r.Intn(10) == 0 {
		gk = zzID(r)
	}
	w.user = zzUser(append([]byte(nil), who...), gk)
	return w, ids
}

// zzGenPlain: a few users, mostly new ones.
func zzGenPlain(r *rand.Rand) []interface{} {
	w, ids := zzGenWorld(r)
	n := len(w.d.Members) + len(w.d.PendingMembers) + len(w.d.RequestingMembers)
	var out [][]byte
	for i := r.Intn(4); i > 0; i-- {
		switch r.Intn(10) {
		case 0:
			out = append(out, ids[r.Intn(n+1)])
		case 1:
			out = append(out, w.user.UserCiphertext)
		case 2:
			if len(out) > 0 {
				out = append(out, append([]byte(nil), out[0]...))
			} else {
				out = append(out, []byte{})
			}
		default:
			out = append(out, append([]byte(nil), ids[n+r.Intn(12-n)]...))
		}
	}
	if r.Intn(4) == 0 {
		out = [][]byte{w.user.UserCiphertext}
	}
	return []interface{}{w, out}
}

// zzGenNamed: a few users, mostly from the list named.
func zzGenNamed(r *rand.Rand, list int) []interface{} {
	w, ids := zzGenWorld(r)
	var from [][]byte
	for _, m := range w.d.Members {
		if list == 0 {
			from = append(from, m.Uuid)
		}
	}
	for _, m := range w.d.PendingMembers {
		if list == 1 {
			from = append(from, m.Uuid)
		}
	}
	for _, m := range w.d.RequestingMembers {
		if list == 2 {
			from = append(from, m.Uuid)
		}
	}
	var out [][]byte
	for i := r.Intn(4); i > 0; i-- {
		switch {
		case r.Intn(8) == 0:
			out = append(out, append([]byte(nil), ids[r.Intn(12)]...))
		case r.Intn(9) == 0 && len(out) > 0:
			out = append(out, append([]byte(nil), out[0]...))
		case len(from) > 0:
			k := r.Intn(len(from))
			out = append(out, append([]byte(nil), from[k]...))
			from = append(append([][]byte(nil), from[:k]...), from[k+1:]...)
		}
	}
	if r.Intn(5) == 0 {
		out = [][]byte{w.user.UserCiphertext}
	}
	return []interface{}{w, out}
}

// zzCredential: a presentation of a user's profile key to a group, as that user would make it.
type zzCredential struct{ uuid, profileKey, presentation []byte }

var zzZK struct {
	ops    *zkgroup.ServerZkProfileOperations
	secret zkgroup.GroupSecretParams
	public zkgroup.GroupPublicParams
	creds  []zzCredential
	other  zzCredential
}

func zzMust(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}
	return b
}

func zzPresent(ss zkgroup.ServerSecretParams, gs zkgroup.GroupSecretParams, n byte) zzCredential {
	ops := zkgroup.NewServerZkProfileOperations(ss)
	sp := zkgroup.ServerPublicParams(zzMust(ss.PublicParams()))
	uuid, pk := v.Repeat(n, 16), v.Repeat(n+100, 32)
	ctx, err := zkgroup.CreateProfileKeyCredentialRequestContext(sp, uuid, pk)
	if err != nil {
		panic(err)
	}
	req, err := ctx.ProfileKeyCredentialRequestContextGetRequest()
	if err != nil {
		panic(err)
	}
	com := zzMust(zkgroup.ProfileKeyGetCommitment(pk, uuid))
	resp := zzMust(ops.IssueProfileKeyCredential(req, uuid, com))
	cred := zzMust(sp.ReceiveProfileKeyCredential(ctx, resp))
	pres := zzMust(sp.CreateProfileKeyCredentialPresentation(gs, cred))
	p := zkgroup.ProfileKeyCredentialPresentation(pres)
	return zzCredential{zzMust(p.UUIDCiphertext()), zzMust(p.ProfileKeyCiphertext()), pres}
}

func zzZKSetup() {
	if zzZK.ops != nil {
		return
	}
	ss := zkgroup.ServerSecretParams(zzMust(zkgroup.GenerateServerSecretParamsDeterministic(v.Repeat(1, 32))))
	zzZK.secret = zkgroup.GroupSecretParams(zzMust(zkgroup.GenerateGroupSecretParamsDeterministic(v.Repeat(2, 32))))
	zzZK.public = zkgroup.GroupPublicParams(zzMust(zzZK.secret.PublicParams()))
	for i := byte(0); i < 4; i++ {
		zzZK.creds = append(zzZK.creds, zzPresent(ss, zzZK.secret, i))
	}
	gs := zkgroup.GroupSecretParams(zzMust(zkgroup.GenerateGroupSecretParamsDeterministic(v.Repeat(3, 32))))
	zzZK.other = zzPresent(ss, gs, 1)
	zzZK.ops = zkgroup.NewServerZkProfileOperations(ss)
}

// Changing one's own profile key, and accepting an invitation, take a presentation that is valid for
// the group and is the user's own.
//
//vc:prop C17 C18
//vc:target (*groupsv2.GroupChangeApplicator).ApplyModifyMemberProfileKeys (*groupsv2.GroupChangeApplicator).ApplyPromoteMembersPendingProfileKey (*groupsv2.GroupValidator).ValidatePresentationUpdate
//vc:bounded
func vc_presentations(who int, lists []int, given []int, promote bool, role int32, flip int) {
	zzZKSetup()
	c := zzZK.creds
	d := &signalservice.DecryptedGroup{Title: "t", AccessControl: &signalservice.AccessControl{}}
	for i, l := range lists {
		switch l {
		case 1:
			d.Members = append(d.Members, &signalservice.DecryptedMember{Uuid: c[i].uuid, Role: signalservice.Member_Role(role), ProfileKey: []byte{byte(i)}, JoinedAtRevision: 3})
		case 2:
			d.PendingMembers = append(d.PendingMembers, &signalservice.DecryptedPendingMember{Uuid: c[i].uuid, Role: signalservice.Member_Role(role), AddedByUuid: []byte{9}, Timestamp: 8})
		}
	}
	w := zzWorld{user: zzUser(c[who].uuid, zzZK.public), key: zzZK.public, d: d, revision: 5}
	g, before := w.groups()
	want := proto.Clone(d).(*signalservice.DecryptedGroup)
	var pres [][]byte
	ok, seen := true, 0
	for _, k := range given {
		p := []byte(nil)
		switch {
		case k == 4:
			p = zzZK.other.presentation
		case k == 5:
			p = []byte{1, 2, 3}
		case k < 4:
			p = append([]byte(nil), c[k].presentation...)
			if flip >= 0 {
				p[flip%len(p)] ^= 1
			}
		}
		pres = append(pres, p)
		ok = ok && k == who && flip < 0
		seen++
	}
	ok = ok && seen <= 1
	ap := NewGroupChangeApplicator(&GroupValidator{profileOperations: zzZK.ops})
	var err error
	if promote {
		var as []*signalservice.GroupChange_Actions_PromotePendingMemberAction
		for _, p := range pres {
			as = append(as, &signalservice.GroupChange_Actions_PromotePendingMemberAction{Presentation: p})
		}
		ok = len(given) == 0 || (ok && lists[who] == 2)
		if ok && len(given) > 0 {
			want.PendingMembers = nil
			for _, m := range d.PendingMembers {
				if string(m.Uuid) != string(c[who].uuid) {
					want.PendingMembers = append(want.PendingMembers, m)
				}
			}
			want.Members = append(want.Members, &signalservice.DecryptedMember{Uuid: c[who].uuid, Role: signalservice.Member_Role(role), ProfileKey: c[who].profileKey, JoinedAtRevision: 6})
		}
		err = ap.ApplyPromoteMembersPendingProfileKey(w.user, nil, g, as, before)
	} else {
		var as []*signalservice.GroupChange_Actions_ModifyMemberProfileKeyAction
		for _, p := range pres {
			as = append(as, &signalservice.GroupChange_Actions_ModifyMemberProfileKeyAction{Presentation: p})
		}
		if ok && len(given) > 0 && lists[who] != 1 { // nobody to change: either answer, but no effect
			err = ap.ApplyModifyMemberProfileKeys(w.user, nil, g, as, before)
			v.Ensures("profile key: nobody else's", proto.Equal(g.DecryptedGroup, d))
			return
		}
		for _, m := range want.Members {
			if ok && len(given) > 0 && string(m.Uuid) == string(c[who].uuid) {
				m.ProfileKey = c[who].profileKey
			}
		}
		err = ap.ApplyModifyMemberProfileKeys(w.user, nil, g, as, before)
	}
	w.settled(err, ok, g, before, want)
}

func gen_vc_presentations(r *rand.Rand) []interface{} {
	who := r.Intn(4)
	lists := []int{r.Intn(3), r.Intn(3), r.Intn(3), r.Intn(3)}
	var given []int
	n := r.Intn(2) + r.Intn(2)
	for i := 0; i < n; i++ {
		k := who
		if r.Intn(4) == 0 {
			k = r.Intn(7)
		}
		given = append(given, k)
	}
	flip := -1
	if r.Intn(5) == 0 {
		flip = r.Intn(1000)
	}
	return []interface{}{who, lists, given, r.Intn(2) == 0, int32(1 + r.Intn(2)), flip}
}

// zzConfigured: the limits the application configures.
func zzConfigured() {
	c := &config.Config{}
	c.Group.MaxGroupSize = 6
	c.Group.MaxGroupTitleLengthBytes = 10
	c.Group.MaxGroupDescriptionLengthBytes = 10
	config.ConfigFile = c
}

// A whole change set: every kind of change in it is judged by its own rule on the group before the
// set; if any is refused, or the outcome is no proper group, the group stays as it was.
//
//vc:prop C17 C18
//vc:target (*groupsv2.GroupV2).ModifyGroup groupsv2.getSourceUuid (*groupsv2.GroupValidator).ValidateFinalGroupState (*groupsv2.GroupValidator).ValidateRoles (*groupsv2.GroupValidator).ValidateAccessControl (*groupsv2.GroupValidator).ValidateAddMember (*groupsv2.GroupValidator).ValidateAddMembersPendingProfileKey (*groupsv2.GroupValidator).ValidateAddMembersPendingAdminApproval
//vc:bounded
func vc_modifyGroup(w zzWorld, parts int, ids [][]byte, role int32, value []byte, to int32) {
	zzConfigured()
	zzZKSetup()
	groupV2Dir = v.TempDir()
	g, _ := w.groups()
	want := proto.Clone(w.d).(*signalservice.DecryptedGroup)
	acts := &signalservice.GroupChange_Actions{Revision: w.revision + 3}
	admin := w.admin()
	me := w.me()
	set := w.d.GetAccessControl()
	ok := true
	attrs := me != nil && (set.Attributes == 1 || set.Attributes == 2 || (set.Attributes == 3 && admin))
	announce := g.AnnouncementsOnly
	has := func(i int) bool { return parts&(1<<i) != 0 }
	var del, inv, wdr, rej, prm, rol [][]byte
	for i, id := range ids {
		switch {
		case has(0) && w.member(id) != nil && i%2 == 0:
			del = append(del, id)
		case has(1) && w.member(id) != nil:
			rol = append(rol, id)
		case has(2) && w.pending(id) != nil:
			wdr = append(wdr, id)
		case has(3) && w.requesting(id) != nil && i%2 == 0:
			rej = append(rej, id)
		case has(4) && w.requesting(id) != nil:
			prm = append(prm, id)
		case has(5) && w.member(id) == nil && w.pending(id) == nil && w.requesting(id) == nil:
			inv = append(inv, id)
		}
	}
	v.Requires(zzDistinct(ids))
	var keep []*signalservice.DecryptedMember
	for _, m := range want.Members {
		if !zzHas(del, m.Uuid) {
			keep = append(keep, m)
		}
	}
	want.Members = keep
	for _, id := range del {
		acts.DeleteMembers = append(acts.DeleteMembers, &signalservice.GroupChange_Actions_DeleteMemberAction{DeletedUserId: id})
	}
	if len(del) > 0 {
		ok = ok && (admin || (len(del) == 1 && w.self(del[0])))
	}
	for _, id := range rol {
		acts.ModifyMemberRoles = append(acts.ModifyMemberRoles, &signalservice.GroupChange_Actions_ModifyMemberRoleAction{UserId: id, Role: signalservice.Member_Role(role)})
		ok = ok && admin && role != 0
		for _, m := range want.Members {
			if string(m.Uuid) == string(id) {
				m.Role = signalservice.Member_Role(role)
			}
		}
	}
	for _, id := range inv {
		acts.AddPendingMembers = append(acts.AddPendingMembers, &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{Member: &signalservice.Member{UserId: id, Role: signalservice.Member_Role(role)}}})
		ok = ok && me != nil && (me.Role == zzAdm || set.Members == 1 || set.Members == 2) && role != 0 && (role != int32(zzAdm) || admin)
		if me != nil {
			want.PendingMembers = append(want.PendingMembers, &signalservice.DecryptedPendingMember{Uuid: id, Role: signalservice.Member_Role(role), AddedByUuid: me.Uuid})
		}
	}
	for _, id := range wdr {
		acts.DeletePendingMembers = append(acts.DeletePendingMembers, &signalservice.GroupChange_Actions_DeletePendingMemberAction{DeletedUserId: id})
	}
	if len(wdr) > 0 {
		ok = ok && (admin || (len(wdr) == 1 && w.self(wdr[0])))
		var l []*signalservice.DecryptedPendingMember
		for _, m := range want.PendingMembers {
			if !zzHas(wdr, m.Uuid) {
				l = append(l, m)
			}
		}
		want.PendingMembers = l
	}
	for _, id := range rej {
		acts.DeleteRequestingMembers = append(acts.DeleteRequestingMembers, &signalservice.GroupChange_Actions_DeleteRequestingMemberAction{DeletedUserId: id})
	}
	if len(rej) > 0 {
		ok = ok && (admin || (len(rej) == 1 && w.self(rej[0])))
	}
	for _, id := range prm {
		acts.PromoteRequestingMembers = append(acts.PromoteRequestingMembers, &signalservice.GroupChange_Actions_PromoteRequestingMemberAction{UserId: id, Role: signalservice.Member_Role(role)})
		ok = ok && admin
		want.Members = append(want.Members, &signalservice.DecryptedMember{Uuid: id, Role: signalservice.Member_Role(role), ProfileKey: w.requesting(id).ProfileKey, JoinedAtRevision: w.revision + 1})
	}
	var l []*signalservice.DecryptedRequestingMember
	for _, m := range want.RequestingMembers {
		if !zzHas(rej, m.Uuid) && !zzHas(prm, m.Uuid) {
			l = append(l, m)
		}
	}
	want.RequestingMembers = l
	acc := signalservice.AccessControl_AccessRequired(to)
	if has(6) {
		acts.ModifyTitle = &signalservice.GroupChange_Actions_ModifyTitleAction{Title: value}
		ok = ok && attrs && len(value) > 0
		want.Title = string(value)
	}
	if has(7) {
		acts.ModifyDescription = &signalservice.GroupChange_Actions_ModifyDescriptionAction{Description: value}
		ok = ok && attrs
		want.Description = string(value)
	}
	if has(8) {
		acts.ModifyAttributesAccess = &signalservice.GroupChange_Actions_ModifyAttributesAccessControlAction{AttributesAccess: acc}
		ok = ok && admin && (to == 2 || to == 3)
		want.AccessControl.Attributes = acc
	}
	if has(9) {
		acts.ModifyMemberAccess = &signalservice.GroupChange_Actions_ModifyMembersAccessControlAction{MembersAccess: acc}
		ok = ok && admin && (to == 2 || to == 3)
		want.AccessControl.Members = acc
	}
	if has(10) {
		acts.ModifyAddFromInviteLinkAccess = &signalservice.GroupChange_Actions_ModifyAddFromInviteLinkAccessControlAction{AddFromInviteLinkAccess: acc}
		ok = ok && admin && (to == 1 || to == 3 || to == 4)
		want.AccessControl.AddFromInviteLink = acc
	}
	if has(11) {
		acts.ModifyInviteLinkPassword = &signalservice.GroupChange_Actions_ModifyInviteLinkPasswordAction{InviteLinkPassword: value}
		ok = ok && admin
		want.InviteLinkPassword = value
	}
	if has(12) {
		acts.ModifyAnnouncementsOnly = &signalservice.GroupChange_Actions_ModifyAnnouncementsOnlyAction{AnnouncementsOnly: true}
		ok = ok && admin
		announce = true
	}
	if has(13) {
		acts.ModifyAvatar = &signalservice.GroupChange_Actions_ModifyAvatarAction{Avatar: "new"}
		ok = ok && attrs
		want.Avatar = "new"
	}
	if has(14) { // without any way to verify it, a new member's presentation proves nothing
		acts.AddMembers = append(acts.AddMembers, &signalservice.GroupChange_Actions_AddMemberAction{Added: &signalservice.Member{Role: zzAdm, Presentation: zzZK.creds[0].presentation}})
		ok = false
	}
	want.Revision = acts.Revision
	known := me != nil || (string(w.user.GroupPublicKey) == string(w.key) && (w.pending(w.user.UserCiphertext) != nil || w.requesting(w.user.UserCiphertext) != nil))
	ok = ok && known && zzProper(want)
	resp, err := g.ModifyGroup(w.user, ModifyGroupParams{InviteLinkPassword: base64.StdEncoding.EncodeToString(w.given)}, acts)
	v.Ensures("change set: answered or refused", (resp == nil) == (err != nil))
	rev := w.revision
	if ok {
		rev = acts.Revision
	} else {
		announce = false
	}
	v.Ensures("change set: accepted exactly if every part is allowed", (err == nil) == ok)
	v.Ensures("change set: the group is at its revision", g.Revision == rev && g.DecryptedGroup.Revision == map[bool]uint32{true: rev, false: w.d.Revision}[ok])
	v.Ensures("change set: announcements setting", g.AnnouncementsOnly == announce)
	w2 := w
	w2.revision = rev
	if !ok {
		v.Cover("refused")
		v.Ensures("change set: refused as a whole", proto.Equal(g.DecryptedGroup, w.d))
		return
	}
	_, before := w.groups()
	w2.settled(err, ok, g, before, want)
}

// zzProper: a group the rules allow to exist.
func zzProper(d *signalservice.DecryptedGroup) bool {
	if len(d.Title) == 0 || len(d.Title) > 10 || len(d.Description) > 10 || len(d.Members)+len(d.PendingMembers) > 6 || len(d.RequestingMembers) > 6 {
		return false
	}
	a := d.AccessControl
	if len(d.InviteLinkPassword) == 0 && a.AddFromInviteLink != 4 && a.AddFromInviteLink != 0 {
		return false
	}
	for _, m := range d.Members {
		if m.Role != 1 && m.Role != 2 {
			return false
		}
	}
	for _, m := range d.PendingMembers {
		if m.Role != 1 && m.Role != 2 {
			return false
		}
	}
	in := func(x signalservice.AccessControl_AccessRequired, l ...int) bool {
		for _, y := range l {
			if int(x) == y {
				return true
			}
		}
		return false
	}
	return in(a.Attributes, 0, 2, 3) && in(a.Members, 0, 2, 3) && in(a.AddFromInviteLink, 0, 1, 2, 3, 4)
}

func gen_vc_modifyGroup(r *rand.Rand) []interface{} {
	w, ids := zzGenWorld(r)
	if r.Intn(4) > 0 { // settings a group may have
		p := func(l ...int) signalservice.AccessControl_AccessRequired {
			return signalservice.AccessControl_AccessRequired(l[r.Intn(len(l))])
		}
		w.d.AccessControl = &signalservice.AccessControl{Attributes: p(2, 3), Members: p(2, 3), AddFromInviteLink: p(1, 3, 4)}
	}
	for _, m := range w.d.Members {
		if m.Role == 0 {
			m.Role = 1
		}
	}
	n := len(w.d.Members) + len(w.d.PendingMembers) + len(w.d.RequestingMembers)
	var some [][]byte
	for _, k := range r.Perm(n + 2)[:r.Intn(min4(n+3))] {
		some = append(some, ids[k])
	}
	parts := 0
	for i := r.Intn(4); i >= 0; i-- {
		parts |= 1 << r.Intn(14)
	}
	parts |= r.Intn(64)
	if r.Intn(15) == 0 {
		parts |= 1 << 14
	}
	return []interface{}{w, parts, some, zzRole(r), v.Repeat(byte(65+r.Intn(4)), r.Intn(12)), int32(r.Intn(6))}
}

func min4(n int) int {
	if n > 4 {
		return 4
	}
	return n
}
