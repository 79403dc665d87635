package main

import (
	"encoding/json"
	"errors"
	"reflect"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/enginekit/message"
	"github.com/dogmatiq/testkit"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// Body is the content shared by every message type of the workload.
type Body struct {
	UID   string // unique within a case
	Inst  string // decides how the message is routed
	Depth int
	Text  string
	Nums  []int
	Bad   string // if non-empty the message is invalid
}

// MessageDescription returns a human-readable description of the message.
func (b Body) MessageDescription() string { return "description of " + b.UID + " " + b.Text }

func (b Body) body() Body { return b }

func (b Body) check() error {
	if b.Bad != "" {
		return errors.New(b.Bad)
	}
	return nil
}

func (b Body) clone() Body {
	b.Nums = append([]int(nil), b.Nums...)
	return b
}

func (b Body) equal(x Body) bool {
	if len(b.Nums) == 0 {
		b.Nums = nil
	}
	if len(x.Nums) == 0 {
		x.Nums = nil
	}
	return reflect.DeepEqual(b, x)
}

type bodied interface{ body() Body }

func bodyOf(m dogma.Message) Body {
	if b, ok := m.(bodied); ok {
		return b.body()
	}
	return Body{}
}

type (
	// CmdBase is embedded by all commands.
	CmdBase struct{ Body }
	// EvtBase is embedded by all events.
	EvtBase struct{ Body }
	// TmoBase is embedded by all timeouts.
	TmoBase struct{ Body }
)

// Validate returns an error if the message is invalid.
func (b CmdBase) Validate(dogma.CommandValidationScope) error { return b.check() }

// Validate returns an error if the message is invalid.
func (b EvtBase) Validate(dogma.EventValidationScope) error { return b.check() }

// Validate returns an error if the message is invalid.
func (b TmoBase) Validate(dogma.TimeoutValidationScope) error { return b.check() }

// The message types; those with a name that ends in P are used via pointers.
type (
	CmdA  struct{ CmdBase }
	CmdB  struct{ CmdBase }
	CmdC  struct{ CmdBase }
	CmdD  struct{ CmdBase }
	CmdE  struct{ CmdBase }
	CmdF  struct{ CmdBase }
	CmdGP struct{ Body }
	CmdHP struct{ Body }
	// CmdI is a protocol buffers message.
	CmdI struct{ *wrapperspb.StringValue }

	EvtA  struct{ EvtBase }
	EvtB  struct{ EvtBase }
	EvtC  struct{ EvtBase }
	EvtD  struct{ EvtBase }
	EvtE  struct{ EvtBase }
	EvtF  struct{ EvtBase }
	EvtGP struct{ Body }
	EvtHP struct{ Body }
	// EvtI is a protocol buffers message.
	EvtI struct{ *wrapperspb.StringValue }

	TmoA  struct{ TmoBase }
	TmoB  struct{ TmoBase }
	TmoC  struct{ TmoBase }
	TmoDP struct{ Body }

	// CmdZ, EvtZ and TmoZ are never part of any application.
	CmdZ struct{ CmdBase }
	EvtZ struct{ EvtBase }
	TmoZ struct{ TmoBase }
)

// MT describes a message type.
type MT struct {
	Kind    message.Kind
	Name    string
	Type    message.Type
	Mk      func(Body) dogma.Message
	Consume func() any // route used by consumers (events and commands)
	Produce func() any // route used by producers
	Proto   bool

	// Used by tests:
	Action  func(dogma.Message) testkit.Action
	Expect  func(dogma.Message) testkit.Expectation
	ExpType func() testkit.Expectation
	ExpOf   func(dogma.Message) testkit.Expectation
	Match   func(func(dogma.Message) error) testkit.Expectation
	Only    func(func(dogma.Message) error) testkit.Expectation
}

func cmdMT[T dogma.Command](name string, mk func(Body) T) *MT {
	return &MT{
		Kind:    message.CommandKind,
		Name:    name,
		Type:    message.TypeFor[T](),
		Mk:      func(b Body) dogma.Message { return mk(b) },
		Consume: func() any { return dogma.HandlesCommand[T]() },
		Produce: func() any { return dogma.ExecutesCommand[T]() },
		Action:  func(m dogma.Message) testkit.Action { return testkit.ExecuteCommand(m.(dogma.Command)) },
		Expect:  func(m dogma.Message) testkit.Expectation { return testkit.ToExecuteCommand(m.(dogma.Command)) },
		ExpType: func() testkit.Expectation { return testkit.ToExecuteCommandType[T]() },
		ExpOf:   func(m dogma.Message) testkit.Expectation { return testkit.ToExecuteCommandOfType(m.(dogma.Command)) },
		Match: func(f func(dogma.Message) error) testkit.Expectation {
			return testkit.ToExecuteCommandMatching(func(m T) error { return f(m) })
		},
		Only: func(f func(dogma.Message) error) testkit.Expectation {
			return testkit.ToOnlyExecuteCommandsMatching(func(m T) error { return f(m) })
		},
	}
}

func evtMT[T dogma.Event](name string, mk func(Body) T) *MT {
	return &MT{
		Kind:    message.EventKind,
		Name:    name,
		Type:    message.TypeFor[T](),
		Mk:      func(b Body) dogma.Message { return mk(b) },
		Consume: func() any { return dogma.HandlesEvent[T]() },
		Produce: func() any { return dogma.RecordsEvent[T]() },
		Action:  func(m dogma.Message) testkit.Action { return testkit.RecordEvent(m.(dogma.Event)) },
		Expect:  func(m dogma.Message) testkit.Expectation { return testkit.ToRecordEvent(m.(dogma.Event)) },
		ExpType: func() testkit.Expectation { return testkit.ToRecordEventType[T]() },
		ExpOf:   func(m dogma.Message) testkit.Expectation { return testkit.ToRecordEventOfType(m.(dogma.Event)) },
		Match: func(f func(dogma.Message) error) testkit.Expectation {
			return testkit.ToRecordEventMatching(func(m T) error { return f(m) })
		},
		Only: func(f func(dogma.Message) error) testkit.Expectation {
			return testkit.ToOnlyRecordEventsMatching(func(m T) error { return f(m) })
		},
	}
}

func tmoMT[T dogma.Timeout](name string, mk func(Body) T) *MT {
	return &MT{
		Kind:    message.TimeoutKind,
		Name:    name,
		Type:    message.TypeFor[T](),
		Mk:      func(b Body) dogma.Message { return mk(b) },
		Produce: func() any { return dogma.SchedulesTimeout[T]() },
	}
}

var (
	commandTypes = []*MT{
		cmdMT("CmdA", func(b Body) CmdA { return CmdA{CmdBase{b}} }),
		cmdMT("CmdB", func(b Body) CmdB { return CmdB{CmdBase{b}} }),
		cmdMT("CmdC", func(b Body) CmdC { return CmdC{CmdBase{b}} }),
		cmdMT("CmdD", func(b Body) CmdD { return CmdD{CmdBase{b}} }),
		cmdMT("CmdE", func(b Body) CmdE { return CmdE{CmdBase{b}} }),
		cmdMT("CmdF", func(b Body) CmdF { return CmdF{CmdBase{b}} }),
		cmdMT("CmdGP", func(b Body) *CmdGP { return &CmdGP{b} }),
		cmdMT("CmdHP", func(b Body) *CmdHP { return &CmdHP{b} }),
		asProto(cmdMT("CmdI", func(b Body) CmdI { return CmdI{packed(b)} })),
		twinCommand(),
	}
	eventTypes = []*MT{
		evtMT("EvtA", func(b Body) EvtA { return EvtA{EvtBase{b}} }),
		evtMT("EvtB", func(b Body) EvtB { return EvtB{EvtBase{b}} }),
		evtMT("EvtC", func(b Body) EvtC { return EvtC{EvtBase{b}} }),
		evtMT("EvtD", func(b Body) EvtD { return EvtD{EvtBase{b}} }),
		evtMT("EvtE", func(b Body) EvtE { return EvtE{EvtBase{b}} }),
		evtMT("EvtF", func(b Body) EvtF { return EvtF{EvtBase{b}} }),
		evtMT("EvtGP", func(b Body) *EvtGP { return &EvtGP{b} }),
		evtMT("EvtHP", func(b Body) *EvtHP { return &EvtHP{b} }),
		asProto(evtMT("EvtI", func(b Body) EvtI { return EvtI{packed(b)} })),
		twinEvent(),
	}
	timeoutTypes = []*MT{
		tmoMT("TmoA", func(b Body) TmoA { return TmoA{TmoBase{b}} }),
		tmoMT("TmoB", func(b Body) TmoB { return TmoB{TmoBase{b}} }),
		tmoMT("TmoC", func(b Body) TmoC { return TmoC{TmoBase{b}} }),
		tmoMT("TmoDP", func(b Body) *TmoDP { return &TmoDP{b} }),
		twinTimeout(),
	}

	alienCommand = cmdMT("CmdZ", func(b Body) CmdZ { return CmdZ{CmdBase{b}} })
	alienEvent   = evtMT("EvtZ", func(b Body) EvtZ { return EvtZ{EvtBase{b}} })
	alienTimeout = tmoMT("TmoZ", func(b Body) TmoZ { return TmoZ{TmoBase{b}} })

	mtByType = func() map[message.Type]*MT {
		x := map[message.Type]*MT{}
		for _, s := range [][]*MT{commandTypes, eventTypes, timeoutTypes, {alienCommand, alienEvent, alienTimeout}} {
			for _, t := range s {
				x[t.Type] = t
			}
		}
		return x
	}()
)

// twinCommand returns a type that looks like CmdA when printed.
func twinCommand() *MT {
	type CmdA struct{ CmdBase }
	return cmdMT("CmdA", func(b Body) CmdA { return CmdA{CmdBase{b}} })
}

// twinEvent returns a type that looks like EvtA when printed.
func twinEvent() *MT {
	type EvtA struct{ EvtBase }
	return evtMT("EvtA", func(b Body) EvtA { return EvtA{EvtBase{b}} })
}

// twinTimeout returns a type that looks like TmoA when printed.
func twinTimeout() *MT {
	type TmoA struct{ TmoBase }
	return tmoMT("TmoA", func(b Body) TmoA { return TmoA{TmoBase{b}} })
}

func mtOf(m dogma.Message) *MT { return mtByType[message.TypeOf(m)] }

// Validate returns an error if the message is invalid.
func (m *CmdGP) Validate(dogma.CommandValidationScope) error { return m.check() }

// Validate returns an error if the message is invalid.
func (m *CmdHP) Validate(dogma.CommandValidationScope) error { return m.check() }

// Validate returns an error if the message is invalid.
func (m *EvtGP) Validate(dogma.EventValidationScope) error { return m.check() }

// Validate returns an error if the message is invalid.
func (m *EvtHP) Validate(dogma.EventValidationScope) error { return m.check() }

// Validate returns an error if the message is invalid.
func (m *TmoDP) Validate(dogma.TimeoutValidationScope) error { return m.check() }

func asProto(t *MT) *MT {
	t.Proto = true
	return t
}

// packed returns a protocol buffers message that contains b.
func packed(b Body) *wrapperspb.StringValue {
	data, err := json.Marshal(b)
	if err != nil {
		panic(err)
	}
	return wrapperspb.String(string(data))
}

func unpacked(m *wrapperspb.StringValue) (b Body) {
	if v := m.GetValue(); v != "" {
		if err := json.Unmarshal([]byte(v), &b); err != nil {
			panic(err)
		}
	}
	return b
}

func (m CmdI) body() Body { return unpacked(m.StringValue) }
func (m EvtI) body() Body { return unpacked(m.StringValue) }

// MessageDescription returns a human-readable description of the message.
func (m CmdI) MessageDescription() string { return m.body().MessageDescription() }

// MessageDescription returns a human-readable description of the message.
func (m EvtI) MessageDescription() string { return m.body().MessageDescription() }

// Validate returns an error if the message is invalid.
func (m CmdI) Validate(dogma.CommandValidationScope) error { return m.body().check() }

// Validate returns an error if the message is invalid.
func (m EvtI) Validate(dogma.EventValidationScope) error { return m.body().check() }
