package lab

import (
	"encoding/json"
	"time"
)

// The JSON report, as far as the oracles read it.

type Loc struct {
	FileName       string
	LineNumber     int
	FullStackTrace string
}

type TLoc struct {
	Offset int
	Order  int
	Time   time.Time
}

type RFailure struct {
	Message                   string
	Location                  Loc
	ForwardedPanic            string
	TimelineLocation          TLoc
	FailureNodeType           string
	FailureNodeContext        string
	FailureNodeLocation       Loc
	FailureNodeContainerIndex int
	ProgressReport            RProgress
	AdditionalFailure         *RAdditional
}

type RAdditional struct {
	State   string
	Failure RFailure
}

type REntry struct {
	Visibility       string
	Location         Loc
	TimelineLocation TLoc
	Time             time.Time
	Name             string
	Value            *struct{ AsJSON, Representation string }
}

type REvent struct {
	SpecEventType    string
	CodeLocation     Loc
	TimelineLocation TLoc
	Message          string
	Duration         time.Duration
	NodeType         string
	Attempt          int
}

type RProgress struct {
	Message              string
	ParallelProcess      int
	RunningInParallel    bool
	LeafNodeText         string
	SpecStartTime        time.Time
	CurrentNodeType      string
	CurrentNodeText      string
	CurrentNodeLocation  Loc
	CurrentNodeStartTime time.Time
	CurrentStepText      string
	AdditionalReports    []string
	TimelineLocation     TLoc
}

type RSpec struct {
	ContainerHierarchyTexts     []string
	ContainerHierarchyLocations []Loc
	LeafNodeType                string
	LeafNodeLocation            Loc
	LeafNodeText                string
	LeafNodeLabels              []string
	ContainerHierarchyLabels    [][]string
	RawText                     string `json:"-"`
	IsSerial                    bool
	IsInOrderedContainer        bool
	RunningInParallel           bool
	State                       string
	StartTime, EndTime          time.Time
	RunTime                     time.Duration
	ParallelProcess             int
	Failure                     *RFailure
	NumAttempts                 int
	MaxFlakeAttempts            int
	MaxMustPassRepeatedly       int
	CapturedGinkgoWriterOutput  string
	CapturedStdOutErr           string
	ReportEntries               []REntry
	ProgressReports             []RProgress
	AdditionalFailures          []RAdditional
	SpecEvents                  []REvent
}

type RReport struct {
	SuitePath                  string
	SuiteDescription           string
	SuiteLabels                []string
	SuiteSucceeded             bool
	SuiteHasProgrammaticFocus  bool
	SpecialSuiteFailureReasons []string
	SuiteConfig                struct{ RandomSeed int64 }
	PreRunStats                struct{ TotalSpecs, SpecsThatWillRun int }
	StartTime, EndTime         time.Time
	RunTime                    time.Duration
	SpecReports                []RSpec
}

func parseReports(s string) ([]RReport, error) {
	var out []RReport
	if err := json.Unmarshal([]byte(s), &out); err != nil {
		return nil, err
	}
	for i := range out {
		for j := range out[i].SpecReports {
			sr := &out[i].SpecReports[j]
			sr.RawText = sr.LeafNodeText
			for _, l := range sr.LeafNodeLabels {
				if len(l) > 3 && l[:3] == "id:" {
					sr.LeafNodeText = l[3:]
				}
			}
		}
	}
	return out, nil
}

func (s *RSpec) msg() string {
	if s.Failure == nil {
		return ""
	}
	return s.Failure.Message
}

// full is the message of a failure and of what it carries with it.
func (f *RFailure) full() string {
	if f.AdditionalFailure == nil {
		return f.Message
	}
	return f.Message + "\x00" + f.AdditionalFailure.State + "\x00" + f.AdditionalFailure.Failure.full()
}

func (s *RSpec) full() string {
	if s.Failure == nil {
		return ""
	}
	return s.Failure.full()
}
