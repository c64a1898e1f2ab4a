//go:build go1.22

// Package sql is database/sql inside the simulation: the real package and the real SQLite, on the
// simulated file system (see zsim/vfs), called without a cancellable context so that everything
// happens on the calling task. Cancellation and connection limits are modelled here.
package sql

import (
	rctx "context"
	"database/sql"
	"database/sql/driver"
	"time"

	"github.com/bobg/fab/zsim"
	"github.com/bobg/fab/zsim/vfs"
)

type (
	Result         = sql.Result
	NullString     = sql.NullString
	NullInt64      = sql.NullInt64
	NullInt32      = sql.NullInt32
	NullInt16      = sql.NullInt16
	NullBool       = sql.NullBool
	NullFloat64    = sql.NullFloat64
	NullTime       = sql.NullTime
	NullByte       = sql.NullByte
	RawBytes       = sql.RawBytes
	NamedArg       = sql.NamedArg
	TxOptions      = sql.TxOptions
	IsolationLevel = sql.IsolationLevel
	Scanner        = sql.Scanner
	Out            = sql.Out
	DBStats        = sql.DBStats
	ColumnType     = sql.ColumnType
)

const (
	LevelDefault         = sql.LevelDefault
	LevelReadUncommitted = sql.LevelReadUncommitted
	LevelReadCommitted   = sql.LevelReadCommitted
	LevelRepeatableRead  = sql.LevelRepeatableRead
	LevelSnapshot        = sql.LevelSnapshot
	LevelSerializable    = sql.LevelSerializable
)

var (
	ErrNoRows   = sql.ErrNoRows
	ErrTxDone   = sql.ErrTxDone
	ErrConnDone = sql.ErrConnDone
)

func Named(name string, value any) NamedArg { return sql.Named(name, value) }
func Drivers() []string                     { return sql.Drivers() }
func Register(name string, d driver.Driver) { sql.Register(name, d) }
func OpenDB(c driver.Connector) *DB         { return track(sql.OpenDB(c)) }

// DB is the real one with everything that may block moved to the simulator.
type DB struct {
	db   *sql.DB
	max  int
	used int
}

var (
	open []*DB
	tidy []func()
)

func init() { vfs.CloseAll = closeAll }

func closeAll() {
	for i := len(tidy) - 1; i >= 0; i-- {
		tidy[i]()
	}
	for _, d := range open {
		d.db.Close()
	}
	open, tidy = nil, nil
}

func track(d *sql.DB) *DB {
	x := &DB{db: d}
	open = append(open, x)
	return x
}

func Open(name, dsn string) (*DB, error) {
	d, err := sql.Open(name, dsn)
	if err != nil {
		return nil, err
	}
	return track(d), nil
}

type slot struct{ d *DB }

func (s slot) Ready() bool { return s.d.max == 0 || s.d.used < s.d.max }

func (d *DB) acquire(ctx rctx.Context) error {
	if zsim.Dead() {
		return ErrConnDone
	}
	zsim.Yield(80)
	if err := ctx.Err(); err != nil {
		return err
	}
	if d.max > 0 && d.used >= d.max {
		if ctx.Done() != nil {
			zsim.BlockOr(slot{d}, ctx.Done())
			if err := ctx.Err(); err != nil {
				return err
			}
		}
		for !(slot{d}).Ready() {
			zsim.Block(slot{d}, -1)
			if zsim.Dead() {
				return ErrConnDone
			}
		}
	}
	d.used++
	return nil
}

func (d *DB) release() { d.used-- }

// late models a cancellation that arrives during an operation: it may be reported although the
// operation took effect.
func late(ctx rctx.Context, err error) error {
	zsim.Dead()
	if e := ctx.Err(); e != nil && err == nil && zsim.Env(2) == 1 {
		return e
	}
	return err
}

var bg = rctx.Background()

// result is read off at once: the real one takes a lock that a suspended task may hold.
type result struct {
	id, n       int64
	idErr, nErr error
}

func (r result) LastInsertId() (int64, error) { return r.id, r.idErr }
func (r result) RowsAffected() (int64, error) { return r.n, r.nErr }

func eager(r Result) Result {
	var x result
	x.id, x.idErr = r.LastInsertId()
	x.n, x.nErr = r.RowsAffected()
	return x
}

func (d *DB) ExecContext(ctx rctx.Context, q string, args ...any) (Result, error) {
	if err := d.acquire(ctx); err != nil {
		return nil, err
	}
	r, err := d.db.ExecContext(bg, q, args...)
	if err == nil {
		r = eager(r)
	}
	d.release()
	if err = late(ctx, err); err != nil {
		return nil, err
	}
	return r, nil
}

func (d *DB) Exec(q string, args ...any) (Result, error) { return d.ExecContext(bg, q, args...) }

// Rows are read when the query runs; the connection is held until Close as with the real ones.
type Rows struct {
	*sql.Rows
	done func()
}

func (r *Rows) Close() error {
	err := r.Rows.Close()
	if r.done != nil {
		r.done()
		r.done = nil
	}
	return err
}

func (r *Rows) Next() bool {
	if r.Rows.Next() {
		return true
	}
	r.Close()
	return false
}

func rows(r *sql.Rows, err error, done func()) (*Rows, error) {
	if err == nil {
		tidy = append(tidy, func() { r.Close() })
	}
	zsim.Dead()
	if err != nil {
		done()
		return nil, err
	}
	return &Rows{r, done}, nil
}

func (d *DB) QueryContext(ctx rctx.Context, q string, args ...any) (*Rows, error) {
	if err := d.acquire(ctx); err != nil {
		return nil, err
	}
	r, err := d.db.QueryContext(bg, q, args...)
	return rows(r, late2(ctx, r, err), d.release)
}

func late2(ctx rctx.Context, r *sql.Rows, err error) error {
	if err == nil {
		tidy = append(tidy, func() { r.Close() })
	}
	e := late(ctx, err)
	if e != nil && err == nil {
		r.Close()
	}
	return e
}

func (d *DB) Query(q string, args ...any) (*Rows, error) { return d.QueryContext(bg, q, args...) }

type Row struct {
	rows *Rows
	err  error
}

func (r *Row) Err() error { return r.err }
func (r *Row) Scan(dest ...any) error {
	if r.err != nil {
		return r.err
	}
	defer r.rows.Close()
	if !r.rows.Next() {
		if err := r.rows.Err(); err != nil {
			return err
		}
		return ErrNoRows
	}
	if err := r.rows.Scan(dest...); err != nil {
		return err
	}
	return r.rows.Close()
}

func (d *DB) QueryRowContext(ctx rctx.Context, q string, args ...any) *Row {
	r, err := d.QueryContext(ctx, q, args...)
	return &Row{r, err}
}
func (d *DB) QueryRow(q string, args ...any) *Row { return d.QueryRowContext(bg, q, args...) }

func (d *DB) PingContext(ctx rctx.Context) error {
	if err := d.acquire(ctx); err != nil {
		return err
	}
	defer d.release()
	return d.db.PingContext(bg)
}
func (d *DB) Ping() error { return d.PingContext(bg) }

func (d *DB) Close() error {
	if zsim.Dead() {
		return nil
	}
	zsim.Yield(81)
	return d.db.Close()
}

func (d *DB) SetMaxOpenConns(n int) {
	d.max = n
	if n > 0 && n < 2 {
		d.db.SetMaxIdleConns(n)
	}
}
func (d *DB) SetMaxIdleConns(n int)              { d.db.SetMaxIdleConns(n) }
func (d *DB) SetConnMaxLifetime(time.Duration)   {}
func (d *DB) SetConnMaxIdleTime(t time.Duration) {}
func (d *DB) Stats() DBStats                     { return d.db.Stats() }
func (d *DB) Driver() driver.Driver              { return d.db.Driver() }

// Tx
type Tx struct {
	tx   *sql.Tx
	done func()
	ctx  rctx.Context
}

func (d *DB) BeginTx(ctx rctx.Context, opts *TxOptions) (*Tx, error) {
	if err := d.acquire(ctx); err != nil {
		return nil, err
	}
	tx, err := d.db.BeginTx(bg, opts)
	if err != nil {
		d.release()
		return nil, err
	}
	tidy = append(tidy, func() { tx.Rollback() })
	return &Tx{tx, d.release, ctx}, nil
}
func (d *DB) Begin() (*Tx, error) { return d.BeginTx(bg, nil) }

func (t *Tx) end() {
	if t.done != nil {
		t.done()
		t.done = nil
	}
}
func (t *Tx) Commit() error {
	if zsim.Dead() {
		return ErrTxDone
	}
	zsim.Yield(82)
	if err := t.ctx.Err(); err != nil {
		t.tx.Rollback()
		t.end()
		return err
	}
	err := t.tx.Commit()
	t.end()
	zsim.Dead()
	return err
}
func (t *Tx) Rollback() error {
	if zsim.Dead() {
		return ErrTxDone
	}
	err := t.tx.Rollback()
	t.end()
	return err
}
func (t *Tx) ExecContext(ctx rctx.Context, q string, args ...any) (Result, error) {
	if zsim.Dead() {
		return nil, ErrTxDone
	}
	zsim.Yield(83)
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	r, err := t.tx.ExecContext(bg, q, args...)
	if err == nil {
		r = eager(r)
	}
	zsim.Dead()
	return r, err
}
func (t *Tx) Exec(q string, args ...any) (Result, error) { return t.ExecContext(bg, q, args...) }
func (t *Tx) QueryContext(ctx rctx.Context, q string, args ...any) (*Rows, error) {
	if zsim.Dead() {
		return nil, ErrTxDone
	}
	zsim.Yield(84)
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	r, err := t.tx.QueryContext(bg, q, args...)
	return rows(r, err, func() {})
}
func (t *Tx) Query(q string, args ...any) (*Rows, error) { return t.QueryContext(bg, q, args...) }
func (t *Tx) QueryRowContext(ctx rctx.Context, q string, args ...any) *Row {
	r, err := t.QueryContext(ctx, q, args...)
	return &Row{r, err}
}
func (t *Tx) QueryRow(q string, args ...any) *Row { return t.QueryRowContext(bg, q, args...) }

func (t *Tx) PrepareContext(ctx rctx.Context, q string) (*Stmt, error) {
	return prepare(ctx, func() (*sql.Stmt, error) { return t.tx.PrepareContext(bg, q) }, nil)
}
func (t *Tx) Prepare(q string) (*Stmt, error) { return t.PrepareContext(bg, q) }

// Stmt
type Stmt struct {
	s *sql.Stmt
	d *DB
}

func prepare(ctx rctx.Context, f func() (*sql.Stmt, error), d *DB) (*Stmt, error) {
	if d != nil {
		if err := d.acquire(ctx); err != nil {
			return nil, err
		}
		defer d.release()
	}
	s, err := f()
	zsim.Dead()
	if err != nil {
		return nil, err
	}
	tidy = append(tidy, func() { s.Close() })
	return &Stmt{s, d}, nil
}

func (d *DB) PrepareContext(ctx rctx.Context, q string) (*Stmt, error) {
	return prepare(ctx, func() (*sql.Stmt, error) { return d.db.PrepareContext(bg, q) }, d)
}
func (d *DB) Prepare(q string) (*Stmt, error) { return d.PrepareContext(bg, q) }
func (s *Stmt) Close() error {
	if zsim.Dead() {
		return nil
	}
	if s.d != nil && s.d.used > 0 {
		return nil // closed at the end of the run: it would wait for a connection in use
	}
	return s.s.Close()
}
func (s *Stmt) ExecContext(ctx rctx.Context, args ...any) (Result, error) {
	done, err := s.enter(ctx)
	if err != nil {
		return nil, err
	}
	r, err := s.s.ExecContext(bg, args...)
	if err == nil {
		r = eager(r)
	}
	done()
	if err = late(ctx, err); err != nil {
		return nil, err
	}
	return r, nil
}
func (s *Stmt) enter(ctx rctx.Context) (func(), error) {
	if s.d != nil {
		return s.d.release, s.d.acquire(ctx)
	}
	if zsim.Dead() {
		return nil, ErrTxDone
	}
	zsim.Yield(85)
	return func() {}, ctx.Err()
}
func (s *Stmt) Exec(args ...any) (Result, error) { return s.ExecContext(bg, args...) }
func (s *Stmt) QueryContext(ctx rctx.Context, args ...any) (*Rows, error) {
	done, err := s.enter(ctx)
	if err != nil {
		return nil, err
	}
	r, err := s.s.QueryContext(bg, args...)
	return rows(r, late2(ctx, r, err), done)
}
func (s *Stmt) Query(args ...any) (*Rows, error) { return s.QueryContext(bg, args...) }
func (s *Stmt) QueryRowContext(ctx rctx.Context, args ...any) *Row {
	r, err := s.QueryContext(ctx, args...)
	return &Row{r, err}
}
func (s *Stmt) QueryRow(args ...any) *Row { return s.QueryRowContext(bg, args...) }

func (t *Tx) StmtContext(ctx rctx.Context, s *Stmt) *Stmt {
	return &Stmt{t.tx.StmtContext(bg, s.s), nil}
}
func (t *Tx) Stmt(s *Stmt) *Stmt { return t.StmtContext(bg, s) }

// Conn
type Conn struct {
	c    *sql.Conn
	done func()
}

func (d *DB) Conn(ctx rctx.Context) (*Conn, error) {
	if err := d.acquire(ctx); err != nil {
		return nil, err
	}
	c, err := d.db.Conn(bg)
	if err != nil {
		d.release()
		return nil, err
	}
	tidy = append(tidy, func() { c.Close() })
	return &Conn{c, d.release}, nil
}
func (c *Conn) Close() error {
	if zsim.Dead() {
		return nil
	}
	if c.done != nil {
		c.done()
		c.done = nil
	}
	return c.c.Close()
}
func (c *Conn) ExecContext(ctx rctx.Context, q string, args ...any) (Result, error) {
	if zsim.Dead() {
		return nil, ErrConnDone
	}
	zsim.Yield(86)
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	r, err := c.c.ExecContext(bg, q, args...)
	zsim.Dead()
	return r, err
}
func (c *Conn) QueryContext(ctx rctx.Context, q string, args ...any) (*Rows, error) {
	if zsim.Dead() {
		return nil, ErrConnDone
	}
	zsim.Yield(87)
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	r, err := c.c.QueryContext(bg, q, args...)
	return rows(r, err, func() {})
}
func (c *Conn) QueryRowContext(ctx rctx.Context, q string, args ...any) *Row {
	r, err := c.QueryContext(ctx, q, args...)
	return &Row{r, err}
}
func (c *Conn) BeginTx(ctx rctx.Context, opts *TxOptions) (*Tx, error) {
	if zsim.Dead() {
		return nil, ErrConnDone
	}
	tx, err := c.c.BeginTx(bg, opts)
	if err != nil {
		return nil, err
	}
	tidy = append(tidy, func() { tx.Rollback() })
	return &Tx{tx, nil, ctx}, nil
}
func (c *Conn) PrepareContext(ctx rctx.Context, q string) (*Stmt, error) {
	return prepare(ctx, func() (*sql.Stmt, error) { return c.c.PrepareContext(bg, q) }, nil)
}
