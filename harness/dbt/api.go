package dbt

import (
	"context"
	"database/sql"
	"iter"

	"github.com/si3nloong/sqlgen/sequel"
)

// Select, Page and the rest carry the arguments of the helpers, which have types of
// their own in every generated package.
type Select struct {
	Select  []string
	From    string
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	GroupBy []string
	Offset  uint64
	Limit   uint16
}

type Page struct {
	Select  []string
	From    string
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	Limit   uint16
}

type Change struct {
	Table   string
	Set     []sequel.SetClause
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	Limit   uint16
}

// UpsertOpt: Override is of MySQL and SQLite, DoNothing and Keys of PostgreSQL.
type UpsertOpt struct {
	Override  bool
	DoNothing bool
	Told      bool // DoNothing is given, also when it is false
	Turned    bool // the options are given in another order
	Keys      []string
	Omit      []string
}

// Model is a model with the helpers of its package. A slice is a []T, m is a *T.
type Model struct {
	Spec *Spec
	K    *Kit
	Cols map[string]*ColOps

	New       func() any
	NewSlice  func(n, capacity int) any
	InsertOne func(ctx context.Context, db *sql.DB, m any) (sql.Result, error)
	Insert    func(ctx context.Context, db *sql.DB, data any) (sql.Result, error)
	UpsertOne func(ctx context.Context, db *sql.DB, m any, o UpsertOpt) (sql.Result, error)
	Upsert    func(ctx context.Context, db *sql.DB, data any, o UpsertOpt) (sql.Result, error)
	Find      func(ctx context.Context, db *sql.DB, m any) error
	Update    func(ctx context.Context, db *sql.DB, m any, ptr bool) (sql.Result, error)
	Delete    func(ctx context.Context, db *sql.DB, m any, ptr bool) (sql.Result, error)
	Lock      func(ctx context.Context, tx *sql.Tx, m any, mode int) error
	Query     func(ctx context.Context, db *sql.DB, s Select) (any, error)
	QueryOne  func(ctx context.Context, db *sql.DB, s Select) (any, error)
	ExecUpd   func(ctx context.Context, db *sql.DB, c Change) (sql.Result, error)
	ExecDel   func(ctx context.Context, db *sql.DB, c Change) (sql.Result, error)
	Page      func(p Page) Pager
}

// Pager is the pager of a model; cursor is a *T or nil.
type Pager func(ctx context.Context, db *sql.DB, prev bool, cursor any) iter.Seq2[any, error]

// ColOps are the operators on a column; values are canonical.
type ColOps struct {
	Name                            string // as the statements write it
	Eq, Ne, Gt, Ge, Lt, Le, Li, NLi func(v any) sequel.WhereClause
	Bt, NBt                         func(a, b any) sequel.WhereClause
	In, NIn                         func(l []any) sequel.WhereClause
	Null, NNull                     func() sequel.WhereClause
	Set                             func(v any) sequel.SetClause
	Asc, Desc                       func() sequel.OrderByClause
}

// Kit is what a generated package has besides the operations on models.
type Kit struct {
	Dialect  string
	Quoted   bool
	Models   []*Model
	And, Or  func(...sequel.WhereClause) sequel.WhereClause
	Acquire  func() sequel.Stmt
	Release  func(sequel.Stmt)
	Locks    int
	Shared   func() [][]string // the lists which the models written by hand share
	OnValues func(f func())    // what HKey does when its values are asked for
	// Count gives count(*) of a group of a table.
	Groups func(ctx context.Context, db *sql.DB, s Select) ([]Group, error)
	// Orphan runs the helpers on a type which is no table.
	Orphan func(ctx context.Context, db *sql.DB, what int) error
}

type Group struct {
	Key any
	N   int64
}

// Kits are registered by the generated program.
var Kits []*Kit

func (k *Kit) model(name string) *Model {
	for _, m := range k.Models {
		if m.Spec.Go == name {
			return m
		}
	}
	return nil
}

func SpecOf(name string) *Spec {
	for _, s := range Specs {
		if s.Go == name {
			return s
		}
	}
	panic(name)
}
