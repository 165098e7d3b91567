// A directory whose operations can be observed, made to fail, or cut by a crash; unsynced data is not durable.
#pragma once
#include "ix.h"
#include "Directory.h"
#include "BufferedIndexInput.h"
#include "BufferedIndexOutput.h"
#include "SingleInstanceLockFactory.h"

struct FFile {
    std::vector<uint8_t> data, durable;
    bool synced;
    int openOut;
    FFile() : synced(false), openOut(0) {}
};
typedef boost::shared_ptr<FFile> FFilePtr;
struct DirEvents {                                     // called before every operation takes effect
    virtual ~DirEvents() {}
    virtual void op(int kind, const String& name) {}
};
enum { OP_CREATE, OP_WRITE, OP_CLOSE, OP_SYNC, OP_DELETE, OP_OPEN, OP_READ, OP_LIST };
struct FaultDir;
struct FOut : public BufferedIndexOutput {
    FFilePtr f; int64_t fp; DirEvents* ev; String name; bool open;
    FOut(const FFilePtr& x, DirEvents* e, const String& n) : f(x), fp(0), ev(e), name(n), open(true) { ++f->openOut; }
    virtual void flushBuffer(const uint8_t* b, int32_t offset, int32_t length) {
        if (length == 0) return;
        if (ev) ev->op(OP_WRITE, name);
        if ((int64_t)f->data.size() < fp + length) f->data.resize(fp + length);
        for (int32_t i = 0; i < length; ++i) f->data[fp + i] = b[offset + i];
        fp += length;
        f->synced = false;
    }
    virtual void close() { if (!open) return; if (ev) ev->op(OP_CLOSE, name); BufferedIndexOutput::close(); open = false; --f->openOut; }
    virtual void seek(int64_t pos) { BufferedIndexOutput::seek(pos); fp = pos; }
    virtual int64_t length() { return f->data.size(); }
};
struct FIn : public BufferedIndexInput {
    FFilePtr f; DirEvents* ev; String name; bool isClone; int* handles;
    FIn(const FFilePtr& x, DirEvents* e, const String& n, int32_t bs, int* h) : BufferedIndexInput(bs), f(x), ev(e), name(n), isClone(false), handles(h) { if (handles) ++*handles; }
    virtual int64_t length() { return f->data.size(); }
    virtual void readInternal(uint8_t* b, int32_t offset, int32_t length) {
        int64_t p = getFilePointer();
        if (ev) ev->op(OP_READ, name);
        if (p + length > (int64_t)f->data.size()) boost::throw_exception(IOException(L"read past end of " + name));
        for (int32_t i = 0; i < length; ++i) b[offset + i] = f->data[p + i];
    }
    virtual void seekInternal(int64_t pos) {}
    virtual void close() { if (!isClone && handles) { --*handles; handles = NULL; } }
    virtual LuceneObjectPtr clone(const LuceneObjectPtr& other = LuceneObjectPtr()) {
        boost::shared_ptr<FIn> c(newLucene<FIn>(f, ev, name, bufferSize, (int*)NULL));
        BufferedIndexInput::clone(c);
        c->isClone = true;
        return c;
    }
};
struct FaultDir : public Directory {
    std::map<String, FFilePtr> files, deleted;         // deleted: last durable content of removed files
    DirEvents* ev;
    int handles;                                       // inputs open and not closed
    FaultDir() : ev(NULL), handles(0) { setLockFactory(newLucene<SingleInstanceLockFactory>()); }
    virtual HashSet<String> listAll() { HashSet<String> r = HashSet<String>::newInstance(); for (auto& x : files) r.add(x.first); return r; }
    virtual bool fileExists(const String& n) { return files.count(n) > 0; }
    virtual uint64_t fileModified(const String& n) { return 0; }
    virtual void touchFile(const String& n) {}
    FFilePtr get(const String& n) { auto i = files.find(n); if (i == files.end()) boost::throw_exception(FileNotFoundException(n)); return i->second; }
    virtual void deleteFile(const String& n) {
        if (ev) ev->op(OP_DELETE, n);
        FFilePtr f = get(n);
        if (f->synced) deleted[n] = f;
        files.erase(n);
    }
    virtual int64_t fileLength(const String& n) { return get(n)->data.size(); }
    virtual IndexOutputPtr createOutput(const String& n) {
        if (ev) ev->op(OP_CREATE, n);
        FFilePtr f(new FFile());
        files[n] = f;
        return newLucene<FOut>(f, ev, n);
    }
    virtual IndexInputPtr openInput(const String& n) { return openInput(n, BufferedIndexInput::BUFFER_SIZE); }
    virtual IndexInputPtr openInput(const String& n, int32_t bs) { if (ev) ev->op(OP_OPEN, n); return newLucene<FIn>(get(n), ev, n, bs, &handles); }
    virtual void sync(const String& n) {
        if (ev) ev->op(OP_SYNC, n);
        FFilePtr f = get(n);
        req(f->openOut == 0, "a file is synced only after it is closed");
        f->durable = f->data;
        f->synced = true;
    }
    virtual void close() {}
    enum { KEPT, GONE, HALF, ZEROED, UNDELETED, NMODES };
    // what a restart finds after a power cut
    RAMDirectoryPtr image(int mode) {
        RAMDirectoryPtr d = newLucene<RAMDirectory>();
        if (mode == UNDELETED) for (auto& x : deleted) if (!files.count(x.first)) put(d, x.first, x.second->durable, x.second->durable.size());
        for (auto& x : files) {
            FFilePtr f = x.second;
            if (f->synced || mode == KEPT || mode == UNDELETED) put(d, x.first, f->data, f->data.size());
            else if (mode == HALF) put(d, x.first, f->data, f->data.size() / 2);
            else if (mode == ZEROED) put(d, x.first, std::vector<uint8_t>(f->data.size(), 0), f->data.size());
        }
        return d;
    }
    static void put(const RAMDirectoryPtr& d, const String& n, const std::vector<uint8_t>& v, size_t len) {
        IndexOutputPtr o = d->createOutput(n);
        if (len) o->writeBytes(&v[0], 0, (int32_t)len);
        o->close();
    }
};
typedef boost::shared_ptr<FaultDir> FaultDirPtr;
