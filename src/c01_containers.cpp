#include <reactphysics3d/reactphysics3d.h>
#include <reactphysics3d/containers/Deque.h>
#include <reactphysics3d/containers/LinkedList.h>
#include <reactphysics3d/containers/Stack.h>
#include <deque>
#include <map>
#include <set>
#include <vector>
#include <memory>
#include "track.h"
using namespace reactphysics3d;
using pbt::Case;

// Owning, trivially relocatable element: a heap cell plus a live count
struct Elem {
    static long live;
    int* p;
    explicit Elem(int v) : p(new int(v)) { live++; }
    Elem(const Elem& o) : p(new int(*o.p)) { live++; }
    Elem& operator=(const Elem& o) { if (this != &o) { *p = *o.p; } return *this; }
    ~Elem() { delete p; p = nullptr; live--; }
    bool operator==(const Elem& o) const { return *p == *o.p; }
    bool operator!=(const Elem& o) const { return *p != *o.p; }
};
long Elem::live = 0;
static int val(const Elem& e) { return *e.p; }
static int val(int e) { return e; }
static Elem mk(Elem*, int v) { return Elem(v); }
static int mk(int*, int v) { return v; }
namespace std { template <> struct hash<Elem> { size_t operator()(const Elem& e) const {
    int v = *e.p; if (v % 3 == 0) return static_cast<size_t>(v / 8); return static_cast<size_t>(v) * 0x9E3779B97F4A7C15ull; } }; }
struct Key { int k; int mode; bool operator==(const Key& o) const { return k == o.k; } bool operator!=(const Key& o) const { return k != o.k; } };
namespace std { template <> struct hash<Key> { size_t operator()(const Key& e) const {
    switch (e.mode) { case 0: return static_cast<size_t>(e.k); case 1: return static_cast<size_t>(e.k % 4); case 2: return static_cast<size_t>(e.k) << 60; default: return static_cast<size_t>(e.k) * 2654435761u; } } }; }

template <class T> static void compareArray(Case& c, Array<T>& a, const std::vector<int>& m, const char* what) {
    c.check(a.size() == m.size(), "%s: size %llu, expected %zu", what, (unsigned long long)a.size(), m.size());
    c.check(a.capacity() >= a.size(), "%s: capacity below size", what);
    for (size_t i = 0; i < m.size(); i++) c.check(val(a[i]) == m[i], "%s: element %zu is %d, expected %d", what, i, val(a[i]), m[i]);
    size_t k = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++k) c.check(k < m.size() && val(*it) == m[k], "%s: iteration differs at %zu", what, k);
    c.check(k == m.size(), "%s: iteration visits %zu of %zu", what, k, m.size());
    if (!m.empty()) {
        auto it = a.end(); size_t n = m.size();
        while (n-- > 0) { --it; c.check(val(*it) == m[n], "%s: backward iteration differs at %zu", what, n); }
        c.check(it == a.begin(), "%s: backward iteration does not reach begin", what);
        auto d = a.end() - a.begin(); c.check(static_cast<size_t>(d) == m.size(), "%s: iterator distance", what);
    }
}

template <class T> static void arrayProp(Case& c) {
    TrackingAllocator al; Elem::live = 0;
    {
        Array<T> a(al, c.draw(20)), b(al); std::vector<int> ma, mb; T* tag = nullptr;
        int n = 0; const double dp = c.chance(0.5) ? 0.5 : 0.05; bool grew = false, removed = false;
        while (c.more(n, 70, 300)) {
            Case::Span sp(c);
            int op = static_cast<int>(c.draw(15)); int v = c.intIn(0, 30);
            switch (op) {
                case 0: case 1: case 2: a.add(mk(tag, v)); ma.push_back(v); c.note("a.add(%d)", v); break;
                case 3: a.emplace(mk(tag, v)); ma.push_back(v); c.note("a.emplace(%d)", v); break;
                case 4: if (!ma.empty()) { size_t i = c.draw(ma.size() - 1); c.note("a.removeAt(%zu)", i); auto it = a.removeAt(i); ma.erase(ma.begin() + i); removed = true;
                        if (i < ma.size()) c.check(it != a.end() && val(*it) == ma[i], "removeAt: returned iterator is not at the next element"); else c.check(it == a.end(), "removeAt of the last element must return end()"); } break;
                case 5: if (!ma.empty()) { size_t i = c.draw(ma.size() - 1); c.note("a.removeAtAndReplaceByLast(%zu)", i); a.removeAtAndReplaceByLast(i); ma[i] = ma.back(); ma.pop_back(); removed = true; } break;
                case 6: { c.note("a.find(%d)", v); T e = mk(tag, v); auto it = a.find(e); size_t k = 0; while (k < ma.size() && ma[k] != v) k++;
                        if (k == ma.size()) c.check(it == a.end(), "find of an absent element"); else { c.check(it != a.end() && val(*it) == v && static_cast<size_t>(it - a.begin()) == k, "find must give the first occurrence");
                            if (c.chance(0.5)) { c.note("a.remove(it)"); a.remove(it); ma.erase(ma.begin() + k); removed = true; } else if (c.chance(0.5)) { c.note("a.remove(%d)", v); a.remove(e); ma.erase(ma.begin() + k); removed = true; } } } break;
                case 7: { uint64_t cap = c.draw(100); c.note("a.reserve(%llu)", (unsigned long long)cap); a.reserve(cap); c.check(a.capacity() >= cap, "reserve did not reserve"); } break;
                case 8: { bool r = c.chance(0.5); if (c.chance(dp)) { c.note("a.clear(%d)", r); a.clear(r); ma.clear(); if (r) c.check(a.capacity() == 0, "clear(true) keeps capacity"); } } break;
                case 9: { size_t s = c.draw(mb.size()); c.note("a.addRange(b,%zu)", s); a.addRange(b, s); ma.insert(ma.end(), mb.begin() + s, mb.end()); } break;
                case 10: c.note("b = a"); b = a; mb = ma; break;
                case 11: if (c.chance(dp)) { c.note("a = b"); a = b; ma = mb; } break;
                case 12: { c.note("copy"); Array<T> k(a); compareArray(c, k, ma, "copy"); if (!ma.empty()) { k[0] = mk(tag, 99); c.check(val(a[0]) == ma[0], "copy shares elements with the original"); } } break;
                case 13: c.check((a == b) == (ma == mb) && (a != b) == (ma != mb), "comparison of arrays disagrees with their content"); break;
                case 14: b.add(mk(tag, v)); mb.push_back(v); break;
                case 15: if (!ma.empty()) { size_t i = c.draw(ma.size() - 1); a[i] = mk(tag, v); ma[i] = v; c.note("a[%zu]=%d", i, v); } break;
            }
            if (ma.size() > 16) grew = true;
            compareArray(c, a, ma, "array");
            if (std::is_same<T, Elem>::value) c.check(Elem::live == static_cast<long>(ma.size() + mb.size()), "%ld elements alive, containers hold %zu", Elem::live, ma.size() + mb.size());
        }
        compareArray(c, b, mb, "second array");
        if (grew && removed) c.nontrivial();
    }
    c.check(Elem::live == 0, "%ld elements never destroyed", Elem::live);
    al.verifyEmpty(c, "Array");
}
static const char* R_ARR = "random operation sequence on two arrays compared with std::vector after each step; non-trivial: grew past the first block and removed something";
PBT_PROP(array_int, 120000, 4000000, R_ARR) { arrayProp<int>(c); }
PBT_PROP(array_owning, 120000, 4000000, R_ARR) { arrayProp<Elem>(c); }

template <class T> static void compareDeque(Case& c, Deque<T>& a, const std::deque<int>& m, const char* what) {
    c.check(a.size() == m.size(), "%s: size %llu, expected %zu", what, (unsigned long long)a.size(), m.size());
    for (size_t i = 0; i < m.size(); i++) c.check(val(a[i]) == m[i], "%s: element %zu is %d, expected %d", what, i, val(a[i]), m[i]);
    size_t k = 0; for (auto it = a.begin(); it != a.end(); ++it, ++k) c.check(k < m.size() && val(*it) == m[k], "%s: iteration differs at %zu", what, k);
    c.check(k == m.size(), "%s: iteration length", what);
    if (!m.empty()) c.check(val(a.getFront()) == m.front() && val(a.getBack()) == m.back(), "%s: front/back", what);
}
template <class T> static void dequeProp(Case& c) {
    TrackingAllocator al; Elem::live = 0;
    {
        Deque<T> a(al), b(al); std::deque<int> ma, mb; T* tag = nullptr; int n = 0; const double dp = c.chance(0.5) ? 0.5 : 0.05; bool pf = false, pb = false, big = false; int bias = static_cast<int>(c.draw(2));
        while (c.more(n, 70, 300)) {
            Case::Span sp(c);
            int op = static_cast<int>(c.draw(13)); int v = c.intIn(0, 30);
            if (bias == 1 && op >= 2 && op < 4) op = 0;
            if (bias == 2 && op < 2) op = 2;
            switch (op) {
                case 0: case 1: c.note("a.addBack(%d)", v); a.addBack(mk(tag, v)); ma.push_back(v); break;
                case 2: case 3: c.note("a.addFront(%d)", v); a.addFront(mk(tag, v)); ma.push_front(v); break;
                case 4: case 11: c.note("a.popFront"); a.popFront(); if (!ma.empty()) { ma.pop_front(); pf = true; } break;
                case 5: c.note("a.popBack"); a.popBack(); if (!ma.empty()) { ma.pop_back(); pb = true; } break;
                case 6: if (c.chance(dp)) { c.note("a.clear"); a.clear(); ma.clear(); } break;
                case 7: c.note("b = a"); b = a; mb = ma; break;
                case 8: if (c.chance(dp)) { c.note("a = b"); a = b; ma = mb; } break;
                case 9: { c.note("copy"); Deque<T> k(a); compareDeque(c, k, ma, "copy"); k.addBack(mk(tag, 77)); k.addFront(mk(tag, 78)); auto mk2 = ma; mk2.push_back(77); mk2.push_front(78); compareDeque(c, k, mk2, "extended copy"); } break;
                case 10: c.check((a == b) == (ma == mb) && (a != b) == (ma != mb), "comparison of deques disagrees with their content"); break;
                case 12: b.addFront(mk(tag, v)); mb.push_front(v); break;
                case 13: if (!ma.empty()) { size_t i = c.draw(ma.size() - 1); a[i] = mk(tag, v); ma[i] = v; } break;
            }
            if (ma.size() > 10) big = true;
            compareDeque(c, a, ma, "deque");
            if (std::is_same<T, Elem>::value) c.check(Elem::live == static_cast<long>(ma.size() + mb.size()), "%ld elements alive, containers hold %zu", Elem::live, ma.size() + mb.size());
        }
        compareDeque(c, b, mb, "second deque");
        if (big && (pf || pb)) c.nontrivial();
    }
    c.check(Elem::live == 0, "%ld elements never destroyed", Elem::live);
    al.verifyEmpty(c, "Deque");
}
static const char* R_DQ = "random operation sequence on two deques compared with std::deque; non-trivial: more than 10 elements and at least one pop";
PBT_PROP(deque_int, 200000, 4000000, R_DQ) { dequeProp<int>(c); }
PBT_PROP(deque_owning, 200000, 4000000, R_DQ) { dequeProp<Elem>(c); }

template <class T> static void stackProp(Case& c) {
    TrackingAllocator al; Elem::live = 0; T* tag = nullptr;
    {
        Stack<T> s(al, c.draw(20)); std::vector<int> m; int n = 0; bool big = false;
        while (c.more(n, 70, 300)) {
            Case::Span sp(c);
            int v = c.intIn(0, 50);
            switch (c.draw(6)) {
                case 0: case 1: case 2: c.note("push(%d)", v); s.push(mk(tag, v)); m.push_back(v); break;
                case 3: if (!m.empty()) { c.note("pop"); T e = s.pop(); c.check(val(e) == m.back(), "pop returned %d, expected %d", val(e), m.back()); m.pop_back(); } break;
                case 4: if (!m.empty()) { c.check(val(s.top()) == m.back(), "top"); s.top() = mk(tag, v); m.back() = v; } break;
                case 5: if (c.chance(0.2)) { c.note("clear"); s.clear(); m.clear(); } break;
                case 6: { c.note("copy"); Stack<T> k(s); auto mm = m; c.check(k.size() == mm.size(), "copy size"); while (!mm.empty()) { T e = k.pop(); c.check(val(e) == mm.back(), "copied stack pops %d, expected %d", val(e), mm.back()); mm.pop_back(); } } break;
            }
            if (m.size() > 16) big = true;
            c.check(s.size() == m.size() && s.capacity() >= s.size(), "stack size");
            if (std::is_same<T, Elem>::value) c.check(Elem::live == static_cast<long>(m.size()), "%ld elements alive, stack holds %zu", Elem::live, m.size());
        }
        if (big) c.nontrivial();
        while (!m.empty() && c.chance(0.5)) { T e = s.pop(); c.check(val(e) == m.back(), "final pop"); m.pop_back(); }
    }
    c.check(Elem::live == 0, "%ld elements never destroyed", Elem::live);
    al.verifyEmpty(c, "Stack");
}
static const char* R_ST = "random push/pop/top/clear/copy sequence compared with a vector; non-trivial: grew past the first block";
PBT_PROP(stack_int, 200000, 3000000, R_ST) { stackProp<int>(c); }
PBT_PROP(stack_owning, 200000, 3000000, R_ST) { stackProp<Elem>(c); }

template <class V> static void compareMap(Case& c, Map<Key, V>& a, const std::map<int, int>& m, int mode, const char* what) {
    c.check(a.size() == m.size(), "%s: size %llu, expected %zu", what, (unsigned long long)a.size(), m.size());
    std::map<int, int> seen;
    for (auto it = a.begin(); it != a.end(); ++it) { c.check(seen.emplace(it->first.k, val(it->second)).second, "%s: iteration visits key %d twice", what, it->first.k); c.check(seen.size() <= m.size(), "%s: iteration visits too many entries", what); }
    c.check(seen == m, "%s: iterated content differs from the model", what);
    for (int k = 0; k < 60; k += 1) { Key key{k, mode}; bool in = m.count(k) > 0; c.check(a.containsKey(key) == in, "%s: containsKey(%d) should be %d", what, k, in);
        auto f = a.find(key); if (in) { c.check(f != a.end() && val(f->second) == m.at(k) && f->first.k == k, "%s: find(%d)", what, k); c.check(val(a[key]) == m.at(k), "%s: [%d]", what, k); } else c.check(f == a.end(), "%s: find(%d) should be end", what, k); }
}
template <class V> static void mapProp(Case& c) {
    TrackingAllocator al; Elem::live = 0; V* tag = nullptr;
    {
        int mode = static_cast<int>(c.draw(3)); int range = c.chance(0.5) ? 59 : 12;
        Map<Key, V> a(al, c.draw(40)), b(al); std::map<int, int> ma, mb; int n = 0; const double dp = c.chance(0.5) ? 0.5 : 0.05; bool big = false, removed = false;
        while (c.more(n, 90, 400)) {
            Case::Span sp(c);
            int op = static_cast<int>(c.draw(13)); int k = c.intIn(0, range), v = c.intIn(0, 99); Key key{k, mode};
            switch (op) {
                case 0: case 1: case 2: case 3:
                    if (!ma.count(k)) { c.note("a.add(%d,%d)", k, v); c.check(a.add(Pair<Key, V>(key, mk(tag, v))), "add of a new key returned false"); ma[k] = v; }
                    else { c.note("a.add(%d,%d,true)", k, v); a.add(Pair<Key, V>(key, mk(tag, v)), true); ma[k] = v; } break;
                case 4: case 5: c.note("a.remove(%d)", k); a.remove(key); removed |= ma.erase(k) > 0; break;
                case 6: { auto it = a.find(key); if (it != a.end()) { c.note("a.remove(find(%d))", k); a.remove(it); ma.erase(k); removed = true; } } break;
                case 7: if (c.chance(dp)) { // iterate and remove some while iterating
                    c.note("erase-while-iterating"); int par = static_cast<int>(c.draw(3)); size_t visited = 0, before = ma.size();
                    for (auto it = a.begin(); it != a.end();) { visited++; c.check(visited <= before, "erasing iteration visits too many"); if (it->first.k % 4 <= par) { ma.erase(it->first.k); it = a.remove(it); removed = true; } else ++it; }
                    c.check(visited == before, "erasing iteration visited %zu of %zu entries", visited, before); } break;
                case 8: { bool r = c.chance(0.5); if (c.chance(dp)) { c.note("a.clear(%d)", r); a.clear(r); ma.clear(); } } break;
                case 9: { uint64_t cap = c.draw(200); c.note("a.reserve(%llu)", (unsigned long long)cap); a.reserve(cap); c.check(a.capacity() >= cap, "reserve"); } break;
                case 10: c.note("b = a"); b = a; mb = ma; break;
                case 11: if (c.chance(dp)) { c.note("a = b"); a = b; ma = mb; } break;
                case 12: { c.note("copy"); Map<Key, V> k2(a); compareMap(c, k2, ma, mode, "copy"); Key nk{100, mode}; k2.add(Pair<Key, V>(nk, mk(tag, 5)), true); c.check(!a.containsKey(nk), "copy shares storage"); } break;
                case 13: c.check((a == b) == (ma == mb) && (a != b) == (ma != mb), "comparison of maps disagrees with their content"); if (ma.count(k)) { a[key] = mk(tag, v); ma[k] = v; } break;
            }
            if (ma.size() > 16) big = true;
            c.check(a.size() == ma.size(), "map size %llu, expected %zu", (unsigned long long)a.size(), ma.size()); if ((n & 3) == 0) compareMap(c, a, ma, mode, "map");
            if (std::is_same<V, Elem>::value) c.check(Elem::live == static_cast<long>(ma.size() + mb.size()), "%ld elements alive, maps hold %zu", Elem::live, ma.size() + mb.size());
        }
        compareMap(c, a, ma, mode, "map"); compareMap(c, b, mb, mode, "second map");
        if (big && removed) c.nontrivial();
    }
    c.check(Elem::live == 0, "%ld elements never destroyed", Elem::live);
    al.verifyEmpty(c, "Map");
}
static const char* R_MAP = "random operation sequence on two maps with plain/colliding hashes compared with std::map; non-trivial: rehashed past the first block and removed something";
PBT_PROP(map_int, 60000, 1000000, R_MAP) { mapProp<int>(c); }
PBT_PROP(map_owning, 60000, 1000000, R_MAP) { mapProp<Elem>(c); }

PBT_PROP(set_owning, 50000, 800000, "random operation sequence on two sets with colliding hashes compared with std::set; non-trivial: rehashed past the first block and removed something") {
    TrackingAllocator al; Elem::live = 0;
    {
        int range = c.chance(0.5) ? 59 : 12;
        Set<Elem> a(al, c.draw(40)), b(al); std::set<int> ma, mb; int n = 0; const double dp = c.chance(0.5) ? 0.5 : 0.05; bool big = false, removed = false;
        auto cmp = [&](Set<Elem>& s, const std::set<int>& m, const char* what) {
            c.check(s.size() == m.size(), "%s: size %llu, expected %zu", what, (unsigned long long)s.size(), m.size());
            std::set<int> seen; for (auto it = s.begin(); it != s.end(); ++it) { c.check(seen.insert(val(*it)).second, "%s: iteration visits %d twice", what, val(*it)); c.check(seen.size() <= m.size(), "%s: iteration too long", what); }
            c.check(seen == m, "%s: iterated content differs from the model", what);
            for (int k = 0; k < 60; k++) { Elem e(k); bool in = m.count(k) > 0; c.check(s.contains(e) == in, "%s: contains(%d) should be %d", what, k, in); auto f = s.find(e); c.check((f != s.end()) == in, "%s: find(%d)", what, k); if (in) c.check(val(*f) == k, "%s: find(%d) gives another", what, k); }
        };
        while (c.more(n, 90, 400)) {
            Case::Span sp(c);
            int op = static_cast<int>(c.draw(13)); int k = c.intIn(0, range); Elem e(k);
            switch (op) {
                case 0: case 1: case 2: case 3: { c.note("a.add(%d)", k); bool r = a.add(e); c.check(r == ma.insert(k).second, "add(%d) returned %d", k, r); } break;
                case 4: case 5: c.note("a.remove(%d)", k); a.remove(e); removed |= ma.erase(k) > 0; break;
                case 6: { auto it = a.find(e); if (it != a.end()) { c.note("a.remove(find(%d))", k); a.remove(it); ma.erase(k); removed = true; } } break;
                case 7: if (c.chance(dp)) { c.note("erase-while-iterating"); int par = static_cast<int>(c.draw(3)); size_t visited = 0, before = ma.size();
                    for (auto it = a.begin(); it != a.end();) { visited++; c.check(visited <= before, "erasing iteration visits too many"); if (val(*it) % 4 <= par) { ma.erase(val(*it)); it = a.remove(it); removed = true; } else ++it; }
                    c.check(visited == before, "erasing iteration visited %zu of %zu", visited, before); } break;
                case 8: { bool r = c.chance(0.5); if (c.chance(dp)) { c.note("a.clear(%d)", r); a.clear(r); ma.clear(); } } break;
                case 9: { uint64_t cap = c.draw(200); c.note("a.reserve(%llu)", (unsigned long long)cap); a.reserve(cap); c.check(a.capacity() >= cap, "reserve"); } break;
                case 10: c.note("b = a"); b = a; mb = ma; break;
                case 11: if (c.chance(dp)) { c.note("a = b"); a = b; ma = mb; } break;
                case 12: { c.note("copy, toArray"); Set<Elem> k2(a); cmp(k2, ma, "copy"); Array<Elem> arr = a.toArray(al); std::multiset<int> x, y(ma.begin(), ma.end()); for (uint64_t i = 0; i < arr.size(); i++) x.insert(val(arr[i])); c.check(x == y, "toArray differs from the set"); } break;
                case 13: c.check((a == b) == (ma == mb) && (a != b) == (ma != mb), "comparison of sets disagrees with their content"); break;
            }
            if (ma.size() > 16) big = true;
            c.check(a.size() == ma.size(), "set size"); if ((n & 3) == 0) cmp(a, ma, "set");
            c.check(Elem::live == static_cast<long>(ma.size() + mb.size()) + 1, "%ld elements alive, sets hold %zu", Elem::live - 1, ma.size() + mb.size());
        }
        cmp(a, ma, "set"); cmp(b, mb, "second set");
        if (big && removed) c.nontrivial();
    }
    c.check(Elem::live == 0, "%ld elements never destroyed", Elem::live);
    al.verifyEmpty(c, "Set");
}

PBT_PROP(linked_list, 100000, 1000000, "random insert/reset sequence on a linked list of owning elements compared with a vector; non-trivial: at least 5 inserts") {
    TrackingAllocator al; Elem::live = 0;
    {
        LinkedList<Elem> l(al); std::vector<int> m; int n = 0; size_t ins = 0;
        while (c.more(n, 20, 100)) {
            Case::Span sp(c);
            if (c.chance(0.1)) { c.note("reset"); l.reset(); m.clear(); } else { int v = c.intIn(0, 50); c.note("insert(%d)", v); l.insert(Elem(v)); m.push_back(v); ins++; }
            auto* e = l.getListHead(); for (size_t i = m.size(); i-- > 0;) { c.check(e != nullptr && val(e->data) == m[i], "list element"); e = e->next; }
            c.check(e == nullptr, "list too long");
            c.check(Elem::live == static_cast<long>(m.size()), "%ld elements alive, list holds %zu", Elem::live, m.size());
        }
        if (ins >= 5) c.nontrivial();
    }
    c.check(Elem::live == 0, "%ld elements never destroyed", Elem::live);
    al.verifyEmpty(c, "LinkedList");
}
