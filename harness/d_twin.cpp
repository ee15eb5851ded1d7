// Clients creating the same new key at the same moment.
#include "par.h"

#include <algorithm>

namespace vh {

namespace {

using TT = transaction_options::transaction_type;

struct Try {
    int kind{}; ///< 0 insert, 1 upsert, 2 insert then update, 3 insert then delete, 4 delete then upsert
    bool give_up{false};
    std::string val;
    Status op{Status::WARN_NOT_BEGIN}, end{Status::WARN_NOT_BEGIN};
    bool wrote{false}, committed{false}, creates{false}, deletes{false};
    std::string str() const {
        static char const* const n[] = {"insert", "upsert", "insert+update", "insert+delete", "delete+upsert"};
        return std::string(n[kind]) + " " + val + " -> " + sstr(op) + (give_up ? " abort" : " commit " + sstr(end));
    }
};

Status finish(Token t, bool lng) {
    if (!lng) { return commit(t); }
    std::atomic<int> st{1000000};
    commit(t, [&st](Status rc, reason_code, durability_marker_type) { st.store(static_cast<int>(rc)); });
    while (st.load() == 1000000) { sleep_us(20); }
    return static_cast<Status>(st.load());
}

void attempt(Token tok, Storage st, std::string const& key, Try& x, bool lng) {
    auto write = [&](auto f) {
        for (int i = 0;; ++i) {
            x.op = f();
            if (x.op != Status::WARN_CONCURRENT_INSERT && x.op != Status::WARN_CONCURRENT_UPDATE && x.op != Status::WARN_PREMATURE) { break; }
            if (x.op != Status::WARN_PREMATURE && i > 20) { break; }
            sleep_us(20);
        }
        return x.op == Status::OK;
    };
    bool made = false;
    if (x.kind == 1) {
        x.wrote = write([&] { return upsert(tok, st, key, x.val); });
    } else if (x.kind == 4) {
        write([&] { return delete_record(tok, st, key); });
        if (!is_err(x.op)) { x.wrote = write([&] { return upsert(tok, st, key, x.val); }); }
        if (!x.wrote) { x.give_up = true; }
    } else {
        made = x.wrote = write([&] { return insert(tok, st, key, x.val); });
        if (made && x.kind == 2) {
            x.val += "u";
            x.op = update(tok, st, key, x.val);
        } else if (made && x.kind == 3) {
            x.op = delete_record(tok, st, key);
            x.wrote = false;
            x.deletes = true;
        }
    }
    if (is_err(x.op)) { return; }
    if (x.give_up) {
        abort(tok);
        return;
    }
    x.end = finish(tok, lng);
    if (x.end != Status::OK) { return; }
    x.committed = true;
    x.creates = made;
}

void drive() {
    auto only = args.num("only", -1);
    for (int i = 0; i < static_cast<int>(args.cases); ++i) {
        if (only >= 0 && i != only) { continue; }
        Rng r(mix(args.seed, static_cast<std::uint64_t>(i) + 1));
        auto cfg = random_cfg(r);
        cfg.bypass = cfg.bypass_root = false;
        auto rp = "twin --seed " + std::to_string(args.seed) + " --cases " + std::to_string(i + 1) + " --only " + std::to_string(i);
        set_case(rp + " " + cfg.str());
        auto loc = fresh_location();
        if (auto s = start_engine(cfg, loc); s != Status::OK) { engine_failed("init:" + sstr(s), "init returned " + sstr(s)); }
        Storage st{};
        if (create_storage("s", st) != Status::OK) { throw HarnessError("create_storage"); }
        auto n = static_cast<std::size_t>(r.range(2, 6));
        std::vector<Token> toks(n);
        for (auto& t : toks) {
            if (enter(t) != Status::OK) { throw HarnessError("enter"); }
        }
        Token chk{};
        if (enter(chk) != Status::OK) { throw HarnessError("enter"); }
        bool lng = r.chance(35);
        const int keys = lng ? 10 : 40;
        std::vector<std::vector<Try>> tries(keys, std::vector<Try>(n));
        bool reuse = r.chance(40); // keys come back after they were removed
        auto key = [&](int k) { return "k" + std::to_string(reuse ? k % 3 : k); };
        std::vector<std::string> after(keys);
        for (int k = 0; k < keys; ++k) {
            for (std::size_t t = 0; t < n; ++t) {
                auto& x = tries[k][t];
                x.kind = r.weighted({50, 20, 10, 12, 8});
                x.give_up = r.chance(30);
                x.val = "v" + std::to_string(k) + "." + std::to_string(t) + (r.chance(30) ? std::string(r.below(300), 'x') : "");
            }
        }
        std::atomic<std::size_t> arrived{0};
        {
            Noise noise(r);
            auto sync = [&](std::size_t upto) {
                arrived.fetch_add(1);
                for (int j = 0; arrived.load() < upto; ++j) {
                    if (j > 2000) { sleep_us(5); }
                }
            };
            par(n, [&](std::size_t t) {
                std::size_t turn = 0;
                for (int k = 0; k < keys; ++k) {
                    auto rc = lng ? tx_begin({toks[t], TT::LONG, {st}}) : tx_begin({toks[t]});
                    if (rc != Status::OK) { throw HarnessError("begin " + sstr(rc)); }
                    sync(++turn * n);
                    attempt(toks[t], st, key(k), tries[k][t], lng);
                    sync(++turn * n);
                    if (t == 0) { // look and clean up
                        for (int j = 0;; ++j) {
                            if (j > 10000) { engine_failed("reader", "the key can not be read " + rp); }
                            if (tx_begin({chk}) != Status::OK) { throw HarnessError("begin"); }
                            std::string v;
                            auto rs = search_key(chk, st, key(k), v);
                            if (rs == Status::OK && reuse) { delete_record(chk, st, key(k)); }
                            if (is_err(rs)) { continue; }
                            if (rs != Status::OK && rs != Status::WARN_NOT_FOUND) {
                                abort(chk);
                                sleep_us(20);
                                continue;
                            }
                            if (commit(chk) != Status::OK) { continue; }
                            after[k] = rs == Status::OK ? v : "";
                            break;
                        }
                        progress();
                    }
                    sync(++turn * n);
                }
            });
        }
        for (int k = 0; k < keys; ++k) {
            std::string text = key(k) + ":";
            std::size_t creators = 0;
            std::vector<std::string> made, put;
            for (auto& x : tries[k]) {
                text += " [" + x.str() + "]";
                if (!x.committed) { continue; }
                if (x.creates && !x.deletes) {
                    ++creators;
                    made.push_back(x.val);
                } else if (x.wrote) {
                    put.push_back(x.val);
                }
            }
            text += " then " + (after[k].empty() ? "absent" : after[k].substr(0, 20));
            auto bad = [&](std::string const& what, std::string const& msg) { res.violation("twin", what, msg + " " + text + " " + rp + " [" + cfg.str() + "]", rp); };
            auto has = [&](std::vector<std::string> const& v) { return std::find(v.begin(), v.end(), after[k]) != v.end(); };
            if (creators > 1) { bad("two_inserts", "two committed transactions inserted the same key"); }
            if (after[k].empty()) {
                if (!made.empty() || !put.empty()) { bad("lost", "a committed write is lost"); }
            } else if (!has(made) && !has(put)) {
                bad("stray", "the value was not written by a committed transaction");
            } else if (!put.empty() && !has(put)) {
                bad("order", "an insert overwrote an existing key");
            }
            res.eval();
            res.count("keys");
            res.count("creators", creators);
            if (made.empty() && put.empty()) { res.count("nobody"); }
            res.distinct(hash_str(text));
            if (res.want_sample()) { res.sample(text); }
        }
        for (auto t : toks) { leave(t); }
        leave(chk);
        stop_engine(true);
        standin::disk_erase(loc);
    }
    res.count("met_in_index", standin::idx_dup_puts.load());
}

Register reg("twin", drive);

} // namespace
} // namespace vh
