package groupsv2

import (
	"math/rand"

	"github.com/signal-golang/textsecure/entities"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	v "github.com/signal-golang/textsecure/zzspec"
)

// zzUser: somebody acting on a group: who they are, and the group they act on.
func zzUser(id, key []byte) *entities.GroupUser {
	return &entities.GroupUser{UserCiphertext: id, GroupPublicKey: key}
}

// zzMembers: a group of these members.
func zzMembers(key []byte, ms []*signalservice.DecryptedMember) *GroupV2 {
	return &GroupV2{MasterKey: key, DecryptedGroup: &signalservice.DecryptedGroup{Members: ms}}
}

// zzIs: the user is the one with the id, in the group with the key.
func zzIs(user, id []byte, same bool) bool { return same && v.Eq(user, id) }

// zzNone: the user has no entry.
func zzNone(user []byte, same bool, ms []*signalservice.DecryptedMember, n int) bool {
	return v.Forall(0, n, func(i int) bool { return !zzIs(user, ms[i].Uuid, same) })
}

// zzFirst: the entry at k is the user's (first) one.
func zzFirst(user []byte, same bool, ms []*signalservice.DecryptedMember, k int) bool {
	return k >= 0 && k < len(ms) && zzIs(user, ms[k].Uuid, same) && zzNone(user, same, ms, k)
}

func zzNotNil(ms []*signalservice.DecryptedMember) bool {
	return v.Forall(0, len(ms), func(i int) bool { return ms[i] != nil })
}

const zzAdm = signalservice.Member_ADMINISTRATOR

// An administrator is a member of this group whose (first) entry has the administrator role; k is any
// position here and below.
//
//vc:prop C17
//vc:target groupsv2.isAdminstrator (*entities.GroupUser).IsMember
func vc_isAdmin(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int) {
	v.Requires(zzNotNil(ms))
	same := v.Eq(ukey, gkey)
	r := isAdminstrator(zzUser(user, ukey), zzMembers(gkey, ms))
	if zzFirst(user, same, ms, k) {
		v.Cover("member")
		v.Ensures("administrator: a member exactly with the administrator role", r == (ms[k].Role == zzAdm))
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Cover("no member")
		v.Ensures("administrator: nobody else", !r)
	}
}

func gen_vc_isAdmin(r *rand.Rand) []interface{} { return zzGenMembers(r) }

// Each of these takes an administrator.
//
//vc:prop C17
//vc:target groupsv2.isPromoteMembersPendingAdminApprovalAllowed (*entities.GroupUser).IsMember
func vc_promoteRequesting(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int) {
	v.Requires(zzNotNil(ms))
	same := v.Eq(ukey, gkey)
	r := isPromoteMembersPendingAdminApprovalAllowed(zzUser(user, ukey), zzMembers(gkey, ms))
	if zzFirst(user, same, ms, k) {
		v.Cover("member")
		v.Ensures("promoting requesting members: a member exactly with the administrator role", r == (ms[k].Role == zzAdm))
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Cover("no member")
		v.Ensures("promoting requesting members: nobody else", !r)
	}
}

func gen_vc_promoteRequesting(r *rand.Rand) []interface{} { return zzGenMembers(r) }

//
//vc:prop C17
//vc:target groupsv2.isModifyAnnouncementsOnlyAllowed (*entities.GroupUser).IsMember
func vc_announcements(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int) {
	v.Requires(zzNotNil(ms))
	same := v.Eq(ukey, gkey)
	r := isModifyAnnouncementsOnlyAllowed(zzUser(user, ukey), zzMembers(gkey, ms))
	if zzFirst(user, same, ms, k) {
		v.Cover("member")
		v.Ensures("announcements only: a member exactly with the administrator role", r == (ms[k].Role == zzAdm))
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Cover("no member")
		v.Ensures("announcements only: nobody else", !r)
	}
}

func gen_vc_announcements(r *rand.Rand) []interface{} { return zzGenMembers(r) }

//
//vc:prop C17
//vc:target groupsv2.isModifyInviteLinkPasswordAllowed (*entities.GroupUser).IsMember
func vc_linkPassword(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int) {
	v.Requires(zzNotNil(ms))
	same := v.Eq(ukey, gkey)
	r := isModifyInviteLinkPasswordAllowed(zzUser(user, ukey), zzMembers(gkey, ms))
	if zzFirst(user, same, ms, k) {
		v.Cover("member")
		v.Ensures("invite link password: a member exactly with the administrator role", r == (ms[k].Role == zzAdm))
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Cover("no member")
		v.Ensures("invite link password: nobody else", !r)
	}
}

func gen_vc_linkPassword(r *rand.Rand) []interface{} { return zzGenMembers(r) }

//
//vc:prop C17
//vc:target groupsv2.isModifyAddFromInviteLinkAccessControlAllowe (*entities.GroupUser).IsMember
func vc_linkAccess(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int) {
	v.Requires(zzNotNil(ms))
	same := v.Eq(ukey, gkey)
	r := isModifyAddFromInviteLinkAccessControlAllowe(zzUser(user, ukey), zzMembers(gkey, ms))
	if zzFirst(user, same, ms, k) {
		v.Cover("member")
		v.Ensures("invite link access: a member exactly with the administrator role", r == (ms[k].Role == zzAdm))
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Cover("no member")
		v.Ensures("invite link access: nobody else", !r)
	}
}

func gen_vc_linkAccess(r *rand.Rand) []interface{} { return zzGenMembers(r) }

// Attributes: members if the setting is any or member, administrators if it is administrator, nobody
// under any other setting.
//
//vc:prop C17
//vc:target groupsv2.isModifyAttributesAllowed groupsv2.GetSourceMember (*entities.GroupUser).IsMember
func vc_attributes(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, none bool) {
	v.Requires(zzNotNil(ms))
	same := v.Eq(ukey, gkey)
	g := zzMembers(gkey, ms)
	if !none {
		g.DecryptedGroup.AccessControl = &signalservice.AccessControl{Attributes: signalservice.AccessControl_AccessRequired(access)}
	}
	r := isModifyAttributesAllowed(zzUser(user, ukey), g)
	if zzFirst(user, same, ms, k) {
		v.Cover("member")
		open := access == int32(signalservice.AccessControl_ANY) || access == int32(signalservice.AccessControl_MEMBER)
		adm := access == int32(signalservice.AccessControl_ADMINISTRATOR)
		v.Ensures("attributes: what the setting says of the member's role", r == (!none && (open || (adm && ms[k].Role == zzAdm))))
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Cover("no member")
		v.Ensures("attributes: nobody else", !r)
	}
}

func gen_vc_attributes(r *rand.Rand) []interface{} {
	return append(zzGenMembers(r), int32(r.Intn(7)), r.Intn(10) == 0)
}

// Inviting: an administrator, or any member if the setting is member or any; nobody else.
//
//vc:prop C17
//vc:target groupsv2.isAddMembersPendingProfileKeyAllowed groupsv2.GetSourceMember (*entities.GroupUser).IsMember
func vc_invite(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, none bool) {
	v.Requires(zzNotNil(ms))
	same := v.Eq(ukey, gkey)
	g := zzMembers(gkey, ms)
	if !none {
		g.DecryptedGroup.AccessControl = &signalservice.AccessControl{Members: signalservice.AccessControl_AccessRequired(access)}
	}
	r := isAddMembersPendingProfileKeyAllowed(zzUser(user, ukey), g)
	if zzFirst(user, same, ms, k) {
		v.Cover("member")
		open := access == int32(signalservice.AccessControl_ANY) || access == int32(signalservice.AccessControl_MEMBER)
		v.Ensures("invite: what the setting says of the member's role", r == (ms[k].Role == zzAdm || (!none && open)))
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Cover("no member")
		v.Ensures("invite: nobody else", !r)
	}
}

func gen_vc_invite(r *rand.Rand) []interface{} { return gen_vc_attributes(r) }

// Asking to join: only where the link asks for an administrator's approval, and with its password.
//
//vc:prop C17
//vc:target groupsv2.isAddMembersPendingAdminApprovalAllowed
func vc_askToJoin(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, access int32, none bool, password, given []byte) {
	v.Requires(zzNotNil(ms))
	g := zzMembers(gkey, ms)
	g.DecryptedGroup.InviteLinkPassword = password
	if !none {
		g.DecryptedGroup.AccessControl = &signalservice.AccessControl{AddFromInviteLink: signalservice.AccessControl_AccessRequired(access)}
	}
	r := isAddMembersPendingAdminApprovalAllowed(zzUser(user, ukey), given, g)
	v.Ensures("ask to join: exactly with the link's password where approval is asked for", r == (!none && access == int32(signalservice.AccessControl_ADMINISTRATOR) && v.Eq(password, given)))
}

func gen_vc_askToJoin(r *rand.Rand) []interface{} {
	u := zzID(r)
	a, b := zzKeys(r)
	p, q := zzKeys(r)
	return []interface{}{u, a, b, zzRandMembers(r, u), int32(r.Intn(6)), r.Intn(10) == 0, p, q}
}

// Removing members: an administrator, or anybody just themselves.
//
//vc:prop C17
//vc:target groupsv2.isDeleteMemberAllowed groupsv2.isAdminstrator (*entities.GroupUser).IsMember
func vc_deleteMember(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, ids [][]byte, n int) {
	v.Requires(zzNotNil(ms) && n >= 0 && n <= 2 && len(ids) >= n)
	same := v.Eq(ukey, gkey)
	as := []*signalservice.GroupChange_Actions_DeleteMemberAction{}
	if n == 1 {
		as = []*signalservice.GroupChange_Actions_DeleteMemberAction{{DeletedUserId: ids[0]}}
	}
	if n == 2 {
		as = []*signalservice.GroupChange_Actions_DeleteMemberAction{{DeletedUserId: ids[0]}, {DeletedUserId: ids[1]}}
	}
	r := isDeleteMemberAllowed(zzUser(user, ukey), zzMembers(gkey, ms), as)
	self := n == 1 && zzIs(user, ids[0], same)
	if zzFirst(user, same, ms, k) {
		v.Cover("member")
		v.Ensures("remove: administrators, or oneself", r == (ms[k].Role == zzAdm || self))
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Cover("no member")
		v.Ensures("remove: otherwise only oneself", r == self)
	}
}

func zzGenIDs(r *rand.Rand) []interface{} {
	g := zzGenMembers(r)
	n := r.Intn(3)
	var ids [][]byte
	for i := 0; i < n; i++ {
		id := zzID(r)
		if r.Intn(3) == 0 {
			id = g[0].([]byte)
		}
		ids = append(ids, id)
	}
	return append(g, ids, n)
}
func gen_vc_deleteMember(r *rand.Rand) []interface{} { return zzGenIDs(r) }

// Withdrawing invitations: an administrator, or the invited just their own.
//
//vc:prop C17
//vc:target groupsv2.isDeleteMembersPendingProfileKeyAllowed groupsv2.isAdminstrator (*entities.GroupUser).IsMember
func vc_deletePending(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, ids [][]byte, n int) {
	v.Requires(zzNotNil(ms) && n >= 0 && n <= 2 && len(ids) >= n)
	same := v.Eq(ukey, gkey)
	as := []*signalservice.GroupChange_Actions_DeletePendingMemberAction{}
	if n == 1 {
		as = []*signalservice.GroupChange_Actions_DeletePendingMemberAction{{DeletedUserId: ids[0]}}
	}
	if n == 2 {
		as = []*signalservice.GroupChange_Actions_DeletePendingMemberAction{{DeletedUserId: ids[0]}, {DeletedUserId: ids[1]}}
	}
	r := isDeleteMembersPendingProfileKeyAllowed(zzUser(user, ukey), zzMembers(gkey, ms), as)
	self := n == 1 && zzIs(user, ids[0], same)
	if zzFirst(user, same, ms, k) {
		v.Cover("member")
		v.Ensures("withdraw invitation: administrators, or one's own", r == (ms[k].Role == zzAdm || self))
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Cover("no member")
		v.Ensures("withdraw invitation: otherwise only one's own", r == self)
	}
}

func gen_vc_deletePending(r *rand.Rand) []interface{} { return zzGenIDs(r) }

// Turning requests down: an administrator, or the requesting one's own.
//
//vc:prop C17
//vc:target groupsv2.isDeleteMembersPendingAdminApprovalAllowed groupsv2.isAdminstrator (*entities.GroupUser).IsMember
func vc_deleteRequesting(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, ids [][]byte, n int) {
	v.Requires(zzNotNil(ms) && n >= 0 && n <= 2 && len(ids) >= n)
	same := v.Eq(ukey, gkey)
	as := []*signalservice.GroupChange_Actions_DeleteRequestingMemberAction{}
	if n == 1 {
		as = []*signalservice.GroupChange_Actions_DeleteRequestingMemberAction{{DeletedUserId: ids[0]}}
	}
	if n == 2 {
		as = []*signalservice.GroupChange_Actions_DeleteRequestingMemberAction{{DeletedUserId: ids[0]}, {DeletedUserId: ids[1]}}
	}
	r := isDeleteMembersPendingAdminApprovalAllowed(zzUser(user, ukey), zzMembers(gkey, ms), as)
	self := n == 1 && zzIs(user, ids[0], same)
	if zzFirst(user, same, ms, k) {
		v.Cover("member")
		v.Ensures("turn request down: administrators, or one's own", r == (ms[k].Role == zzAdm || self))
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Cover("no member")
		v.Ensures("turn request down: otherwise only one's own", r == self)
	}
}

func gen_vc_deleteRequesting(r *rand.Rand) []interface{} { return zzGenIDs(r) }

// Adding members: a member as the members setting and their role say; anybody else only themselves,
// and only if the group is open to anyone, or its link is and they have its password.
//
//vc:prop C17
//vc:target groupsv2.isAddMemberAllowed groupsv2.GetSourceMember (*entities.GroupUser).IsMember
func vc_addMember(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, ids [][]byte, n int, members, link int32, password, given []byte) {
	v.Requires(zzNotNil(ms) && n >= 0 && n <= 2 && len(ids) >= n)
	same := v.Eq(ukey, gkey)
	as := []*signalservice.GroupChange_Actions_AddMemberAction{}
	if n == 1 {
		as = []*signalservice.GroupChange_Actions_AddMemberAction{{Added: &signalservice.Member{UserId: ids[0]}}}
	}
	if n == 2 {
		as = []*signalservice.GroupChange_Actions_AddMemberAction{{Added: &signalservice.Member{UserId: ids[0]}}, {Added: &signalservice.Member{UserId: ids[1]}}}
	}
	g := zzMembers(gkey, ms)
	g.DecryptedGroup.InviteLinkPassword = password
	g.DecryptedGroup.AccessControl = &signalservice.AccessControl{
		Members:           signalservice.AccessControl_AccessRequired(members),
		AddFromInviteLink: signalservice.AccessControl_AccessRequired(link),
	}
	r := isAddMemberAllowed(zzUser(user, ukey), given, g, as)
	anyone := members == int32(signalservice.AccessControl_ANY)
	if zzFirst(user, same, ms, k) {
		v.Cover("member")
		role := ms[k].Role
		v.Ensures("add: a member as the setting says", r == (role == zzAdm || (role == signalservice.Member_DEFAULT && (anyone || members == int32(signalservice.AccessControl_MEMBER)))))
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Cover("no member")
		self := n == 1 && zzIs(user, ids[0], same)
		v.Ensures("add: otherwise only oneself, and only to an open group or with the link's password",
			r == (self && (anyone || (link == int32(signalservice.AccessControl_ANY) && v.Eq(password, given)))))
	}
}

func gen_vc_addMember(r *rand.Rand) []interface{} {
	g := zzGenIDs(r)
	p, q := zzKeys(r)
	return append(g, int32(r.Intn(6)), int32(r.Intn(6)), p, q)
}

// Who is a member, invited or asking to join.
//
//vc:prop C17
//vc:target groupsv2.IsMember groupsv2.GetSourceMember (*entities.GroupUser).IsMember
func vc_isMember(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int) {
	v.Requires(zzNotNil(ms))
	same := v.Eq(ukey, gkey)
	r := IsMember(zzUser(user, ukey), zzMembers(gkey, ms))
	v.Ensures("member: exactly with an entry", r == !zzNone(user, same, ms, len(ms)))
}

func gen_vc_isMember(r *rand.Rand) []interface{} { return zzGenMembers(r) }

//vc:prop C17
//vc:target groupsv2.GetSourceMember (*entities.GroupUser).IsMember
func vc_sourceMember(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int) {
	v.Requires(zzNotNil(ms))
	same := v.Eq(ukey, gkey)
	m := GetSourceMember(zzUser(user, ukey), zzMembers(gkey, ms))
	if zzFirst(user, same, ms, k) {
		v.Ensures("source member: the user's entry", m == ms[k])
	}
	if zzNone(user, same, ms, len(ms)) {
		v.Ensures("source member: none otherwise", m == nil)
	}
}

func gen_vc_sourceMember(r *rand.Rand) []interface{} { return zzGenMembers(r) }

//vc:prop C17
//vc:target groupsv2.IsMemberPendingProfileKey groupsv2.GetMemberPendingProfileKey (*entities.GroupUser).IsMember
func vc_isPending(user, ukey, gkey []byte, ms []*signalservice.DecryptedPendingMember) {
	v.Requires(v.Forall(0, len(ms), func(i int) bool { return ms[i] != nil }))
	same := v.Eq(ukey, gkey)
	g := &GroupV2{MasterKey: gkey, DecryptedGroup: &signalservice.DecryptedGroup{PendingMembers: ms}}
	has := v.Exists(0, len(ms), func(i int) bool { return zzIs(user, ms[i].Uuid, same) })
	r := IsMemberPendingProfileKey(zzUser(user, ukey), g)
	v.Ensures("invited: exactly with an entry", r == has)
	m := GetMemberPendingProfileKey(zzUser(user, ukey), g)
	v.Ensures("invited: the user's entry", (m != nil) == has && (m == nil || zzIs(user, m.Uuid, same)))
}

func gen_vc_isPending(r *rand.Rand) []interface{} {
	u := zzID(r)
	a, b := zzKeys(r)
	var ms []*signalservice.DecryptedPendingMember
	for _, m := range zzRandMembers(r, u) {
		ms = append(ms, &signalservice.DecryptedPendingMember{Uuid: m.Uuid, Role: m.Role, AddedByUuid: zzID(r), Timestamp: uint64(r.Intn(5))})
	}
	return []interface{}{u, a, b, ms}
}

//vc:prop C17
//vc:target groupsv2.IsMemberPendingAdminApproval groupsv2.GetMemberPendingAdminApproval (*entities.GroupUser).IsMember
func vc_isRequesting(user, ukey, gkey []byte, ms []*signalservice.DecryptedRequestingMember) {
	v.Requires(v.Forall(0, len(ms), func(i int) bool { return ms[i] != nil }))
	same := v.Eq(ukey, gkey)
	g := &GroupV2{MasterKey: gkey, DecryptedGroup: &signalservice.DecryptedGroup{RequestingMembers: ms}}
	has := v.Exists(0, len(ms), func(i int) bool { return zzIs(user, ms[i].Uuid, same) })
	r := IsMemberPendingAdminApproval(zzUser(user, ukey), g)
	v.Ensures("requesting: exactly with an entry", r == has)
	m := GetMemberPendingAdminApproval(zzUser(user, ukey), g)
	v.Ensures("requesting: the user's entry", (m != nil) == has && (m == nil || zzIs(user, m.Uuid, same)))
}

func gen_vc_isRequesting(r *rand.Rand) []interface{} {
	u := zzID(r)
	a, b := zzKeys(r)
	var ms []*signalservice.DecryptedRequestingMember
	for _, m := range zzRandMembers(r, u) {
		ms = append(ms, &signalservice.DecryptedRequestingMember{Uuid: m.Uuid, ProfileKey: zzID(r), Timestamp: uint64(r.Intn(5))})
	}
	return []interface{}{u, a, b, ms}
}

func zzGenMembers(r *rand.Rand) []interface{} {
	u := zzID(r)
	a, b := zzKeys(r)
	return []interface{}{u, a, b, zzRandMembers(r, u), r.Intn(5) - 1}
}

func zzRandMembers(r *rand.Rand, user []byte) []*signalservice.DecryptedMember {
	var ms []*signalservice.DecryptedMember
	for i := r.Intn(4); i > 0; i-- {
		m := &signalservice.DecryptedMember{Uuid: zzID(r), Role: signalservice.Member_Role(r.Intn(4)), ProfileKey: zzID(r), JoinedAtRevision: uint32(r.Intn(9))}
		if r.Intn(3) == 0 {
			m.Uuid = user
		}
		ms = append(ms, m)
	}
	return ms
}

// zzID draws from few ids, some being prefixes of others.
func zzID(r *rand.Rand) []byte {
	b := []byte{byte(r.Intn(7)), 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	if r.Intn(5) == 0 {
		return b[:r.Intn(16)]
	}
	return b
}

func zzKeys(r *rand.Rand) (a, b []byte) {
	a = zzID(r)
	if r.Intn(8) == 0 {
		return a, zzID(r)
	}
	return a, append([]byte(nil), a...)
}
