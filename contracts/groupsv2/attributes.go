package groupsv2

import (
	"math/rand"

	signalservice "github.com/signal-golang/textsecure/protobuf"
	v "github.com/signal-golang/textsecure/zzspec"
)

// zzAttrs: the attributes of a group.
type zzAttrs struct {
	title, avatar, description string
	password                   []byte
	attributes, members, link  int32
	announcements              bool
	revision                   uint32
}

func (a zzAttrs) group(key []byte, ms []*signalservice.DecryptedMember) *GroupV2 {
	g := zzMembers(key, ms)
	g.Revision = a.revision
	g.AnnouncementsOnly = a.announcements
	d := g.DecryptedGroup
	d.Title, d.Avatar, d.Description = a.title, a.avatar, a.description
	d.InviteLinkPassword = a.password
	d.AccessControl = &signalservice.AccessControl{
		Attributes:        signalservice.AccessControl_AccessRequired(a.attributes),
		Members:           signalservice.AccessControl_AccessRequired(a.members),
		AddFromInviteLink: signalservice.AccessControl_AccessRequired(a.link),
	}
	return g
}

// same: the group has these attributes and these members.
func (a zzAttrs) same(g *GroupV2, ms []*signalservice.DecryptedMember) {
	d := g.DecryptedGroup
	v.Ensures("attributes: title, avatar, description", v.Holds(func() bool {
		return d.Title == a.title && d.Avatar == a.avatar && d.Description == a.description
	}))
	v.Ensures("attributes: access settings", v.Holds(func() bool {
		return int32(d.AccessControl.Attributes) == a.attributes && int32(d.AccessControl.Members) == a.members && int32(d.AccessControl.AddFromInviteLink) == a.link
	}))
	v.Ensures("attributes: invite link password", v.Eq(d.InviteLinkPassword, a.password))
	v.Ensures("attributes: announcements, revision and lists of users", v.Holds(func() bool {
		return g.AnnouncementsOnly == a.announcements && g.Revision == a.revision &&
			len(d.Members) == len(ms) && len(d.PendingMembers) == 0 && len(d.RequestingMembers) == 0
	}))
}

const (
	zzAny    = int32(signalservice.AccessControl_ANY)
	zzMember = int32(signalservice.AccessControl_MEMBER)
	zzAdmins = int32(signalservice.AccessControl_ADMINISTRATOR)
	zzNobody = int32(signalservice.AccessControl_UNSATISFIABLE)
)

// zzAdminAt: the user whose entry is at k (none if negative) is an administrator.
func zzAdminAt(ms []*signalservice.DecryptedMember, k int) bool {
	return k >= 0 && ms[k].Role == zzAdm
}

// zzMay: the user whose entry is at k may change attributes under the setting.
func zzMay(ms []*signalservice.DecryptedMember, k int, access int32) bool {
	return k >= 0 && (access == zzAny || access == zzMember || (access == zzAdmins && ms[k].Role == zzAdm))
}

// zzAttributeChange applies one change of attributes by the member at k, or by no member. The rules
// are judged on the group before the change (setting access), here a different one.
func zzAttributeChange(kind int, user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, title string, value []byte, to int32, on bool) {
	v.Requires(zzNotNil(ms))
	same := v.Eq(ukey, gkey)
	if k < 0 {
		v.Requires(zzNone(user, same, ms, len(ms)))
	} else {
		v.Requires(zzFirst(user, same, ms, k))
	}
	before := zzAttrs{title: "old", attributes: access, members: 7, link: 8, revision: 5}.group(gkey, ms)
	a := zzAttrs{title: title, avatar: "a", description: "d", password: value, attributes: 9, members: 10, link: 11, announcements: !on, revision: 6}
	g := a.group(gkey, ms)
	u := zzUser(user, ukey)
	ap := NewGroupChangeApplicator(&GroupValidator{})
	var err error
	ok := false
	switch kind {
	case 0:
		err = ap.ApplyModifyTitle(u, nil, g, &signalservice.GroupChange_Actions_ModifyTitleAction{Title: value}, before)
		if ok = v.Holds(func() bool { return zzMay(ms, k, access) && len(value) > 0 }); ok {
			a.title = string(value)
		}
	case 1:
		err = ap.ApplyModifyAvatar(u, nil, g, &signalservice.GroupChange_Actions_ModifyAvatarAction{Avatar: title}, before)
		if ok = v.Holds(func() bool { return zzMay(ms, k, access) }); ok {
			a.avatar = title
		}
	case 2:
		err = ap.ApplyModifyDescription(u, nil, g, &signalservice.GroupChange_Actions_ModifyDescriptionAction{Description: value}, before)
		if ok = v.Holds(func() bool { return zzMay(ms, k, access) }); ok {
			a.description = string(value)
		}
	case 3:
		err = ap.ApplyModifyDisappearingMessageTimer(u, nil, g, &signalservice.GroupChange_Actions_ModifyDisappearingMessagesTimerAction{}, before)
		ok = v.Holds(func() bool { return zzMay(ms, k, access) })
	case 4:
		err = ap.ApplyModifyAttributesAccess(u, nil, g, &signalservice.GroupChange_Actions_ModifyAttributesAccessControlAction{AttributesAccess: signalservice.AccessControl_AccessRequired(to)}, before)
		if ok = v.Holds(func() bool { return zzAdminAt(ms, k) && (to == zzMember || to == zzAdmins) }); ok {
			a.attributes = to
		}
	case 5:
		err = ap.ApplyModifyMembersAccess(u, nil, g, &signalservice.GroupChange_Actions_ModifyMembersAccessControlAction{MembersAccess: signalservice.AccessControl_AccessRequired(to)}, before)
		if ok = v.Holds(func() bool { return zzAdminAt(ms, k) && (to == zzMember || to == zzAdmins) }); ok {
			a.members = to
		}
	case 6:
		err = ap.ApplyModifyAddFromInviteLinkAccess(u, nil, g, &signalservice.GroupChange_Actions_ModifyAddFromInviteLinkAccessControlAction{AddFromInviteLinkAccess: signalservice.AccessControl_AccessRequired(to)}, before)
		if ok = v.Holds(func() bool { return zzAdminAt(ms, k) && (to == zzAny || to == zzAdmins || to == zzNobody) }); ok {
			a.link = to
		}
	case 7:
		err = ap.ApplyModifyInviteLinkPassword(u, nil, g, &signalservice.GroupChange_Actions_ModifyInviteLinkPasswordAction{InviteLinkPassword: append([]byte("x"), value...)}, before)
		if ok = v.Holds(func() bool { return zzAdminAt(ms, k) }); ok {
			a.password = append([]byte("x"), value...)
		}
	default:
		err = ap.ApplyModifyAnnouncementsOnly(u, nil, g, &signalservice.GroupChange_Actions_ModifyAnnouncementsOnlyAction{AnnouncementsOnly: on}, before)
		if ok = v.Holds(func() bool { return zzAdminAt(ms, k) }); ok {
			a.announcements = on
		}
	}
	v.Ensures("change: applied exactly if its rule allows it", (err == nil) == ok)
	a.same(g, ms)
}

func zzGenAttributes(r *rand.Rand) []interface{} {
	return append(zzGenAttrMembers(r), int32(r.Intn(6)), string(v.RandBytes(r)), v.RandBytes(r), int32(r.Intn(6)), r.Intn(2) == 0)
}

// zzGenAttrMembers: mostly a user who is a member.
func zzGenAttrMembers(r *rand.Rand) []interface{} {
	u := zzID(r)
	a := zzID(r)
	b := a
	if r.Intn(8) == 0 {
		b = zzID(r)
	}
	ms := zzRandMembers(r, u)
	k := -1
	for i := range ms {
		if v.Eq(ms[i].Uuid, u) && k < 0 {
			k = i
		}
	}
	return []interface{}{u, a, b, ms, k}
}

//vc:prop C17 C18
//vc:time 250
//vc:target (*groupsv2.GroupChangeApplicator).ApplyModifyTitle
func vc_title(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, title string, value []byte, to int32, on bool) {
	zzAttributeChange(0, user, ukey, gkey, ms, k, access, title, value, to, on)
}

func gen_vc_title(r *rand.Rand) []interface{} { return zzGenAttributes(r) }

//vc:prop C17 C18
//vc:time 250
//vc:target (*groupsv2.GroupChangeApplicator).ApplyModifyAvatar
func vc_avatar(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, title string, value []byte, to int32, on bool) {
	zzAttributeChange(1, user, ukey, gkey, ms, k, access, title, value, to, on)
}

func gen_vc_avatar(r *rand.Rand) []interface{} { return zzGenAttributes(r) }

//vc:prop C17 C18
//vc:time 250
//vc:target (*groupsv2.GroupChangeApplicator).ApplyModifyDescription
func vc_description(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, title string, value []byte, to int32, on bool) {
	zzAttributeChange(2, user, ukey, gkey, ms, k, access, title, value, to, on)
}

func gen_vc_description(r *rand.Rand) []interface{} { return zzGenAttributes(r) }

//vc:prop C17 C18
//vc:time 250
//vc:target (*groupsv2.GroupChangeApplicator).ApplyModifyDisappearingMessageTimer
func vc_timer(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, title string, value []byte, to int32, on bool) {
	zzAttributeChange(3, user, ukey, gkey, ms, k, access, title, value, to, on)
}

func gen_vc_timer(r *rand.Rand) []interface{} { return zzGenAttributes(r) }

//vc:prop C17 C18
//vc:time 250
//vc:target (*groupsv2.GroupChangeApplicator).ApplyModifyAttributesAccess
func vc_attributesAccess(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, title string, value []byte, to int32, on bool) {
	zzAttributeChange(4, user, ukey, gkey, ms, k, access, title, value, to, on)
}

func gen_vc_attributesAccess(r *rand.Rand) []interface{} { return zzGenAttributes(r) }

//vc:prop C17 C18
//vc:time 250
//vc:target (*groupsv2.GroupChangeApplicator).ApplyModifyMembersAccess
func vc_membersAccess(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, title string, value []byte, to int32, on bool) {
	zzAttributeChange(5, user, ukey, gkey, ms, k, access, title, value, to, on)
}

func gen_vc_membersAccess(r *rand.Rand) []interface{} { return zzGenAttributes(r) }

//vc:prop C17 C18
//vc:time 250
//vc:target (*groupsv2.GroupChangeApplicator).ApplyModifyAddFromInviteLinkAccess
func vc_linkAccessChange(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, title string, value []byte, to int32, on bool) {
	zzAttributeChange(6, user, ukey, gkey, ms, k, access, title, value, to, on)
}

func gen_vc_linkAccessChange(r *rand.Rand) []interface{} { return zzGenAttributes(r) }

//vc:prop C17 C18
//vc:time 250
//vc:target (*groupsv2.GroupChangeApplicator).ApplyModifyInviteLinkPassword
func vc_passwordChange(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, title string, value []byte, to int32, on bool) {
	zzAttributeChange(7, user, ukey, gkey, ms, k, access, title, value, to, on)
}

func gen_vc_passwordChange(r *rand.Rand) []interface{} { return zzGenAttributes(r) }

//vc:prop C17 C18
//vc:time 250
//vc:target (*groupsv2.GroupChangeApplicator).ApplyModifyAnnouncementsOnly
func vc_announcementsChange(user, ukey, gkey []byte, ms []*signalservice.DecryptedMember, k int, access int32, title string, value []byte, to int32, on bool) {
	zzAttributeChange(8, user, ukey, gkey, ms, k, access, title, value, to, on)
}

func gen_vc_announcementsChange(r *rand.Rand) []interface{} { return zzGenAttributes(r) }
