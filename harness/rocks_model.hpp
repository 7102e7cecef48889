// A model of RocksDB behind its real headers: column families of rows with pending merge
// operands that the database folds (or not) whenever it likes, and writes that may fail.
#ifndef H_ROCKS_MODEL
#define H_ROCKS_MODEL
#include <deque>
#include <string>
#include <vector>
#include "rocksdb/db.h"
#include "rocksdb/merge_operator.h"
#include "rocksdb/utilities/stackable_db.h"
#include "rocksdb/write_batch.h"
#include "sym.h"
namespace rocksmodel {
struct Row { std::string key, base; bool has = false; std::vector<std::string> pend; };
struct Family { std::string name; std::vector<Row> rows; };
static std::vector<Family*> disk;
static bool exists = false, locked = false;
static int handles = 0, iterators = 0;   // open ones
static bool may_fail = false, failed = false;  // the next write may fail; a write did
static int folding = 0;                  // 0 never; 1 one row at a time, at every write
static Family* find(const std::string& n) { for (auto f : disk) if (f->name == n) return f; return nullptr; }
static int cmp(const std::string& a, const std::string& b) {  // like the bytewise comparator
    size_t n = a.size() < b.size() ? a.size() : b.size(), i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t x, y;
        __builtin_memcpy(&x, &a[i], 8); __builtin_memcpy(&y, &b[i], 8);
        x = __builtin_bswap64(x); y = __builtin_bswap64(y);
        if (sym_istrue(x == y)) continue;
        return sym_istrue(x < y) ? -1 : 1;
    }
    for (; i < n; ++i) if (!sym_istrue(a[i] == b[i])) return sym_istrue((unsigned char)a[i] < (unsigned char)b[i]) ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
}
namespace ROCKSDB_NAMESPACE {
using namespace rocksmodel;
const std::string kDefaultColumnFamilyName("default");
Status::Status(Code c, SubCode s, const Slice&, const Slice&, Severity v) : Status(c, s) { sev_ = v; }
std::unique_ptr<const char[]> Status::CopyState(const char* s) { size_t n = __builtin_strlen(s) + 1; char* r = new char[n]; for (size_t i = 0; i < n; ++i) r[i] = s[i]; return std::unique_ptr<const char[]>(r); }
std::string Status::ToString() const { return code_ == kOk ? "OK" : "failed"; }
Cleanable::Cleanable() { cleanup_.function = nullptr; cleanup_.next = nullptr; }
Cleanable::~Cleanable() {}
const char* kHostnameForDbHostId = "host";
std::string Slice::ToString(bool) const { return std::string(data_, size_); }
Env* Env::Default() { return nullptr; }
DBOptions::DBOptions() {}
DBOptions::DBOptions(const Options& o) : DBOptions(*static_cast<const DBOptions*>(&o)) {}
AdvancedColumnFamilyOptions::AdvancedColumnFamilyOptions() : memtable_factory(nullptr) {}
const Comparator* BytewiseComparator() { return nullptr; }
ColumnFamilyOptions::ColumnFamilyOptions() {}
ColumnFamilyOptions::ColumnFamilyOptions(const Options& o) : ColumnFamilyOptions(*static_cast<const ColumnFamilyOptions*>(&o)) {}
DB::~DB() {}
bool MergeOperator::FullMergeV2(const MergeOperationInput&, MergeOperationOutput*) const { return false; }
bool MergeOperator::FullMergeV3(const MergeOperationInputV3&, MergeOperationOutputV3*) const { return false; }
bool MergeOperator::PartialMergeMulti(const Slice& k, const std::deque<Slice>& ops, std::string* to, Logger* l) const {
    if (ops.size() < 2) return false;  // like the library's: pair by pair
    std::string acc = ops[0].ToString();
    for (size_t i = 1; i < ops.size(); ++i) { std::string r; if (!PartialMerge(k, Slice(acc), ops[i], &r, l)) return false; acc.swap(r); }
    to->swap(acc);
    return true;
}
struct SavePoints {};
struct WriteBatch::ProtectionInfo {};
WriteBatch::WriteBatch(size_t, size_t, size_t, size_t) {}
WriteBatch::~WriteBatch() {}
static void rec(std::string& to, char kind, ColumnFamilyHandle* cf, const Slice& k, const Slice& v) {
    uint64_t h[3] = {(uint64_t)cf, k.size(), v.size()};
    to.push_back(kind);
    to.append((const char*)h, sizeof h);
    to.append(k.data(), k.size());
    to.append(v.data(), v.size());
}
Status WriteBatch::Merge(ColumnFamilyHandle* cf, const Slice& k, const Slice& v) { rec(rep_, 'm', cf, k, v); return Status::OK(); }
Status WriteBatch::Put(ColumnFamilyHandle* cf, const Slice& k, const Slice& v) { rec(rep_, 'p', cf, k, v); return Status::OK(); }
Status WriteBatch::Delete(ColumnFamilyHandle* cf, const Slice& k) { rec(rep_, 'd', cf, k, Slice()); return Status::OK(); }
void WriteBatch::Clear() { rep_.clear(); }

struct Handle : ColumnFamilyHandle {
    Family* f;
    std::shared_ptr<MergeOperator> op;
    bool own;  // not the database's default one
    Handle(Family* fam, std::shared_ptr<MergeOperator> m, bool o) : f(fam), op(m), own(o) { if (own) ++handles; }
    ~Handle() override { if (own) --handles; }
    const std::string& GetName() const override { return f->name; }
    uint32_t GetID() const override { return f->name != kDefaultColumnFamilyName; }
    Status GetDescriptor(ColumnFamilyDescriptor*) override { return Status::NotSupported(); }
    const Comparator* GetComparator() const override { return nullptr; }
};
static Handle* H(ColumnFamilyHandle* h) { return static_cast<Handle*>(h); }
// the value of a row: base and operands merged
static bool value_of(Handle* h, const Row& r, std::string& to) {
    if (r.pend.empty()) { to = r.base; return true; }
    if (!h->op) return false;
    Slice k(r.key), base(r.base), existing(nullptr, 0);
    std::vector<Slice> ops;
    for (auto& p : r.pend) ops.push_back(Slice(p));
    std::string out;
    MergeOperator::MergeOperationInput in(k, r.has ? &base : nullptr, ops, nullptr);
    MergeOperator::MergeOperationOutput mo(out, existing);
    if (!h->op->FullMergeV2(in, &mo)) return false;
    if (existing.data() != nullptr) to = existing.ToString(); else to.swap(out);
    return true;
}
static void fold_full(Handle* h, Row& r) {
    std::string v;
    if (!value_of(h, r, v)) return;
    r.base = v; r.has = true; r.pend.clear();
}
static void fold_part(Handle* h, Row& r, size_t from) {
    std::deque<Slice> ops;
    for (size_t i = from; i < r.pend.size(); ++i) ops.push_back(Slice(r.pend[i]));
    std::string out;
    if (!h->op || !h->op->PartialMergeMulti(Slice(r.key), ops, &out, nullptr)) return;
    r.pend.resize(from);
    r.pend.push_back(out);
}
static void maintain(Handle* h, Row& r) {
    if (!folding) return;
    size_t n = r.pend.size();
    switch (sym_choose("fold", n >= 3 ? 4 : n == 2 ? 3 : n ? 2 : 1)) {
        case 1: fold_full(h, r); break;
        case 2: fold_part(h, r, n - 2); break;
        case 3: fold_part(h, r, 0); break;
    }
}
static size_t place(Family* f, const std::string& k, bool& found) {
    size_t i = 0;
    found = false;
    for (; i < f->rows.size(); ++i) { int c = cmp(f->rows[i].key, k); if (c >= 0) { found = c == 0; break; } }
    return i;
}
static Status apply(char kind, Handle* h, const std::string& k, const std::string& v) {
    bool found;
    size_t i = place(h->f, k, found);
    auto& rows = h->f->rows;
    if (kind == 'd') { if (found) rows.erase(rows.begin() + i); return Status::OK(); }
    if (!found) { Row r; r.key = k; rows.insert(rows.begin() + i, r); }
    Row& r = rows[i];
    if (kind == 'p') { r.base = v; r.has = true; r.pend.clear(); return Status::OK(); }
    r.pend.push_back(v);
    maintain(h, r);
    return Status::OK();
}
struct Iter : Iterator {
    std::vector<std::string> keys, values;
    std::vector<char> good;
    int64_t at = -1;
    Iter(Handle* h) {
        ++iterators;
        for (auto& r : h->f->rows) { keys.push_back(r.key); std::string v; good.push_back(value_of(h, r, v)); values.push_back(v); }
    }
    ~Iter() override { --iterators; }
    bool in() const { return at >= 0 && at < (int64_t)keys.size(); }
    bool Valid() const override { return in() && good[at]; }
    void SeekToFirst() override { at = 0; }
    void SeekToLast() override { at = (int64_t)keys.size() - 1; }
    void Seek(const Slice& t) override { std::string k = t.ToString(); at = 0; while (at < (int64_t)keys.size() && cmp(keys[at], k) < 0) ++at; }
    void SeekForPrev(const Slice& t) override { std::string k = t.ToString(); at = (int64_t)keys.size() - 1; while (at >= 0 && cmp(keys[at], k) > 0) --at; }
    void Next() override { sym_assert(Valid(), "RocksDB: Next() of a valid iterator only"); ++at; }
    void Prev() override { sym_assert(Valid(), "RocksDB: Prev() of a valid iterator only"); --at; }
    Slice key() const override { sym_assert(Valid(), "RocksDB: key() of a valid iterator only"); return Slice(keys[at]); }
    Slice value() const override { sym_assert(Valid(), "RocksDB: value() of a valid iterator only"); return Slice(values[at]); }
    Status status() const override { return in() && !good[at] ? Status::Corruption() : Status::OK(); }
};
struct ModelDB : StackableDB {
    Handle* dflt;
    ModelDB(std::shared_ptr<MergeOperator> op) : StackableDB((DB*)nullptr) { locked = true; dflt = new Handle(find(kDefaultColumnFamilyName), op, false); }
    ~ModelDB() override {
        sym_assert(handles == 0, "RocksDB: column family handles are released before the database is closed");
        delete dflt;
        locked = false;
    }
    Handle* h(ColumnFamilyHandle* c) { return c ? H(c) : dflt; }
    using StackableDB::Put; using StackableDB::Get; using StackableDB::Delete; using StackableDB::Merge;
    using StackableDB::CreateColumnFamily; using StackableDB::DropColumnFamily; using StackableDB::NewIterator; using StackableDB::Flush; using StackableDB::CompactRange;
    ColumnFamilyHandle* DefaultColumnFamily() const override { return dflt; }
    bool fails() { if (!may_fail || !sym_choose("fails", 2)) return false; failed = true; return true; }
    Status Merge(const WriteOptions&, ColumnFamilyHandle* c, const Slice& k, const Slice& v) override {
        if (!h(c)->op) return Status::InvalidArgument();
        if (fails()) return Status::IOError();
        return apply('m', h(c), k.ToString(), v.ToString());
    }
    Status Put(const WriteOptions&, ColumnFamilyHandle* c, const Slice& k, const Slice& v) override { if (fails()) return Status::IOError(); return apply('p', h(c), k.ToString(), v.ToString()); }
    Status Delete(const WriteOptions&, ColumnFamilyHandle* c, const Slice& k) override { if (fails()) return Status::IOError(); return apply('d', h(c), k.ToString(), ""); }
    Status Write(const WriteOptions&, WriteBatch* b) override {
        if (fails()) return Status::IOError();
        const std::string& d = b->Data();
        for (size_t i = 0; i < d.size();) {
            uint64_t q[3];
            char kind = d[i];
            __builtin_memcpy(q, &d[i + 1], sizeof q);
            i += 1 + sizeof q;
            apply(kind, h((ColumnFamilyHandle*)q[0]), std::string(&d[i], q[1]), std::string(d.data() + i + q[1], q[2]));
            i += q[1] + q[2];
        }
        return Status::OK();
    }
    Status Get(const ReadOptions&, ColumnFamilyHandle* c, const Slice& k, PinnableSlice* to) override {
        bool found;
        size_t i = place(h(c)->f, k.ToString(), found);
        if (!found) return Status::NotFound();
        std::string v;
        if (!value_of(h(c), h(c)->f->rows[i], v)) return Status::Corruption();
        to->PinSelf(Slice(v));
        return Status::OK();
    }
    Iterator* NewIterator(const ReadOptions&, ColumnFamilyHandle* c) override { return new Iter(h(c)); }
    Status CreateColumnFamily(const ColumnFamilyOptions& o, const std::string& n, ColumnFamilyHandle** to) override {
        if (find(n)) return Status::InvalidArgument();
        Family* f = new Family;
        f->name = n;
        disk.push_back(f);
        *to = new Handle(f, o.merge_operator, true);
        return Status::OK();
    }
    Status DropColumnFamily(ColumnFamilyHandle* c) override {
        Family* f = h(c)->f;
        if (f->name == kDefaultColumnFamilyName) return Status::InvalidArgument();
        for (size_t i = 0; i < disk.size(); ++i) if (disk[i] == f) { disk.erase(disk.begin() + i); return Status::OK(); }
        return Status::InvalidArgument();
    }
    Status DestroyColumnFamilyHandle(ColumnFamilyHandle* c) override { if (c != dflt) delete c; return Status::OK(); }
    Status Flush(const FlushOptions&, ColumnFamilyHandle*) override { return Status::OK(); }
    Status FlushWAL(bool) override { return Status::OK(); }
    Status CompactRange(const CompactRangeOptions&, ColumnFamilyHandle* c, const Slice*, const Slice*) override { for (auto& r : h(c)->f->rows) fold_full(h(c), r); return Status::OK(); }
    Status Close() override { return Status::OK(); }
};
static Status open_db(const DBOptions& o, const std::vector<ColumnFamilyDescriptor>& fs, std::vector<ColumnFamilyHandle*>* hs, DB** to) {
    if (!exists) {
        if (!o.create_if_missing) return Status::InvalidArgument();
        exists = true;
        Family* f = new Family;
        f->name = kDefaultColumnFamilyName;
        disk.push_back(f);
    } else if (o.error_if_exists) return Status::InvalidArgument();
    if (locked) return Status::IOError();
    size_t known = 0;
    const ColumnFamilyDescriptor* d = nullptr;
    for (auto& c : fs) {
        if (!find(c.name)) return Status::InvalidArgument();
        ++known;
        if (c.name == kDefaultColumnFamilyName) d = &c;
    }
    if (known != disk.size() || !d) return Status::InvalidArgument();  // all families have to be opened
    *to = new ModelDB(d->options.merge_operator);
    if (hs) { hs->clear(); for (auto& c : fs) hs->push_back(new Handle(find(c.name), c.options.merge_operator, true)); }
    return Status::OK();
}
Status DB::Open(const DBOptions& o, const std::string&, const std::vector<ColumnFamilyDescriptor>& fs, std::vector<ColumnFamilyHandle*>* hs, DB** to) { return open_db(o, fs, hs, to); }
Status DB::Open(const Options& o, const std::string&, DB** to) {
    std::vector<ColumnFamilyDescriptor> fs;
    fs.push_back(ColumnFamilyDescriptor(kDefaultColumnFamilyName, ColumnFamilyOptions(o)));
    return open_db(o, fs, nullptr, to);
}
Status DB::ListColumnFamilies(const DBOptions&, const std::string&, std::vector<std::string>* to) {
    if (!exists) return Status::IOError();
    to->clear();
    for (auto f : disk) to->push_back(f->name);
    return Status::OK();
}
Status RepairDB(const std::string&, const DBOptions&, const std::vector<ColumnFamilyDescriptor>&) { return Status::OK(); }
Status RepairDB(const std::string&, const DBOptions&, const std::vector<ColumnFamilyDescriptor>&, const ColumnFamilyOptions&) { return Status::OK(); }
Status RepairDB(const std::string&, const Options&) { return Status::OK(); }
}
#endif
