package main

import (
	"errors"
	"fmt"
	"strings"

	pkg "github.com/pkg/errors"
	"github.com/snivilised/agenor/collections"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
)

// mistake is a kind of error: how to make one, with the given values; what it
// says, apart from the values; and how to tell that an error is one.
type mistake struct {
	make   func(a, b string) error
	says   string
	values int
	is     func(error) bool
	as     int // tells apart those which the same test recognises
}

func fixed(e error, says string) mistake {
	return mistake{make: func(string, string) error { return e }, says: says, is: func(err error) bool { return errors.Is(err, e) }}
}

var mistakes = []mistake{
	fixed(locale.ErrFilterIsNil, "filter is nil"),
	fixed(locale.ErrFilterMissingType, "filter missing type"),
	fixed(locale.ErrFilterCustomNotSupported, "custom filter not supported"),
	fixed(locale.ErrFilterChildGlobExNotSupported, "glob"),
	fixed(locale.ErrFilterUndefined, "filter is undefined"),
	fixed(locale.ErrInternalFailedToGetNavigatorDriver, "failed to get navigator driver"),
	fixed(locale.ErrWorkerPoolCreationFailed, "failed to create worker pool"),
	fixed(locale.ErrInvalidFileSamplingSpecMissingFiles, "missing no of files"),
	fixed(locale.ErrInvalidSamplingSpecMissingDirectories, "missing no of directories"),
	fixed(locale.ErrMissingCustomFilterDefinition, "missing custom filter definition"),
	fixed(locale.ErrPolyFilterIsInvalid, "poly filter definition is invalid"),
	fixed(locale.ErrUsageMissingTreePath, "missing tree path"),
	fixed(locale.ErrUsageMissingRestorePath, "missing restore path"),
	fixed(locale.ErrUsageMissingSubscription, "missing subscription"),
	fixed(locale.ErrUsageMissingHandler, "missing handler"),
	fixed(locale.ErrIDGeneratorFuncCantBeNil, "id generator func can't be nil"),
	fixed(locale.ErrUnEqualConversion, "unequal JSON conversion"),
	fixed(core.ErrGuardianCantDecorateItemSealed, "can't decorate"),
	fixed(core.ErrDetectedSpawnStackOverflow, "stack-overflow"),
	fixed(core.ErrWrongPrimaryFacade, "wrong primary facade"),
	fixed(core.ErrWrongResumeFacade, "wrong resume facade"),
	fixed(core.ErrNilForest, "forest is nil"),
	fixed(collections.ErrStackIsEmpty, "stack is empty"),
	{
		make: func(a, _ string) error { return locale.NewInvalidIncaseFilterDefError(a) },
		says: "invalid incase filter definition", values: 1, is: locale.IsInvalidIncaseFilterDefError,
	},
	{
		make: func(a, _ string) error { return locale.NewInvalidExtGlobFilterMissingSeparatorError(a) },
		says: "missing separator", values: 1, is: locale.IsInvalidExtGlobFilterMissingSeparatorError,
	},
	{
		make: func(string, string) error { return locale.NewTraverseFsMismatchError() },
		says: "file system mismatch", is: locale.IsCoreResumeFsMismatchError, as: 1,
	},
	{
		make: func(string, string) error { return locale.NewResumeFsMismatchError() },
		says: "file system mismatch", is: locale.IsCoreResumeFsMismatchError, as: 1,
	},
	{
		make: func(a, _ string) error { return locale.NewTraversalSavedError(a, errClient) },
		says: "panic occurred", values: 1, is: locale.IsCorePanicOccurredError, as: 2,
	},
	{
		make: func(a, _ string) error { return locale.NewTraversalNotSavedError(errClient, errors.New(a)) },
		says: "panic occurred", values: 1, is: locale.IsCorePanicOccurredError, as: 2,
	},
	{
		make: func(a, _ string) error { return core.NewInvalidNotificationMuteRequestedError(a) },
		says: "invalid notification mute requested", values: 1, is: core.IsInvalidNotificationMuteRequestedError,
	},
	{
		make: func(a, _ string) error { return core.NewInvalidResumeStateTransitionError(a) },
		says: "invalid resume state transition", values: 1, is: core.IsInvalidResumeStateTransitionError,
	},
	{
		make: func(a, _ string) error { return core.NewItemAlreadyExtendedError(a) },
		says: "already extended", values: 1, is: core.IsNewItemAlreadyExtendedError,
	},
	{
		make: func(a, _ string) error { return core.NewMissingHibernationDetacherFunctionError(a) },
		says: "missing listen detacher function", values: 1, is: core.IsMissingHibernationDetacherFunctionError,
	},
	{
		make: core.NewInvalidPeriscopeRootPathError,
		says: "tree path can't be longer than current", values: 2, is: core.IsInvalidPeriscopeRootPathError,
	},
	{
		make: func(a, _ string) error { return core.NewResumeControllerNotSetError(a) },
		says: "resume controller not set", values: 1, is: core.IsResumeControllerNotSetError,
	},
	{
		make: func(a, _ string) error { return core.NewBrokerTopicNotFoundError(a) },
		says: "broker topic not found", values: 1, is: core.IsBrokerTopicNotFoundError,
	},
}

func (m *mistake) recognises(o *mistake) bool { return m == o || m.as != 0 && m.as == o.as }

var _ = reg("H_C25", H_C25)

// H_C25: errors say what is wrong, with what, and can be told apart.
func H_C25() {
	k := sym.Pick("kind", len(mistakes))
	m := &mistakes[k]
	const length = 3
	a, b := sym.Str("a", length, "a./{} "), sym.Str("b", length, "a./{} ")
	err := m.make(a, b)
	text := err.Error()
	sym.Assert(strings.Contains(text, m.says), "says")
	if m.values > 0 {
		sym.Assert(strings.Contains(text, a), "says-value")
	}
	if m.values > 1 {
		sym.Assert(strings.Contains(text, b), "says-values")
	}
	// two errors say different things, if they are not the same
	k2 := sym.Pick("other", len(mistakes))
	other := &mistakes[k2]
	otherErr := other.make(a, b)
	if k != k2 {
		sym.Assert(otherErr.Error() != text, "says-different")
	}

	// however they are wrapped
	joined := false
	for i := 0; i < sym.Param("wraps", 2); i++ {
		switch sym.Pick(fmt.Sprintf("wrap%d", i), 5) {
		case 1:
			err = fmt.Errorf("%s: %w", a, err)
		case 2:
			err = pkg.Wrap(err, b)
		case 3:
			err = errors.Join(err, otherErr)
			joined = true
		case 4:
			err = errors.Join(errClient, err)
		}
	}
	for i := range mistakes {
		t := &mistakes[i]
		want := t.recognises(m) || joined && t.recognises(other)
		sym.Assert(t.is(err) == want, "told-apart")
		sym.Assert(!t.is(errClient), "told-apart")
		sym.Assert(!t.is(nil), "told-apart")
	}
	sym.Reach("end")
}

var _ = reg("H_C25_saved", H_C25_saved)

// H_C25_saved: the error of a traversal that panicked says where it was saved.
func H_C25_saved() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 2))
	r := &rig{w: w, sub: subscriptions[sym.Pick("sub", len(subscriptions))]}
	at := sym.Pick("at", len(w.all))
	r.onNode = func(v visit) error {
		if v.e == w.all[at] {
			panic(errClient)
		}
		return nil
	}
	r.walk(pref.WithAdminPath(adminPath))
	dest := savedAt(r.err)
	if dest == "" {
		sym.Assert(r.err == nil, "error")
		sym.Reach("end")
		return
	}
	sym.Assert(locale.IsCorePanicOccurredError(r.err), "panic")
	sym.Assert(strings.Contains(r.err.Error(), dest), "says-where")
	_, ok := w.written[dest]
	sym.Assert(ok, "saved-there")
	sym.Reach("end")
	sym.Reach("saved")
}
