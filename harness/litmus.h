/**
 * Small concurrent transaction programs ("cases"), their execution against the engine with a
 * chosen interleaving, and the exact decision whether the outcome is explainable.
 */
#pragma once

#include <condition_variable>
#include <memory>
#include <optional>
#include <thread>

#include "common.h"
#include "limestone_monitor.h"
#include "monitor.h"

namespace vh {

enum class Kind { SHORT, LONG, RTX };
enum class OpT { SEARCH, EXIST, INSERT, UPDATE, UPSERT, DELETE, SCAN };

struct ScanSpec {
    std::string l;
    scan_endpoint le{scan_endpoint::INF};
    std::string r;
    scan_endpoint re{scan_endpoint::INF};
    std::size_t max{0};
    bool r2l{false};
    int stop_after{-1}; ///< leave the scan after this many entries
    int read{3};        ///< bit 0: keys, bit 1: values
    bool close{true};
};

struct Op {
    OpT t{};
    int st{};
    std::string key;
    std::string val;
    ScanSpec sc;
};

struct ScanItem {
    bool gap{false}; ///< an entry the engine could not read now
    bool has_key{false};
    std::string key;
    bool has_val{false};
    std::string val;
};

struct OpRes {
    bool done{false};
    Status s{Status::OK};
    std::string val;
    std::vector<ScanItem> items;
    bool complete{false}; ///< scan: ran to its end
    std::uint64_t c{}, r{};
};

enum class Out { NONE, COMMITTED, ABORT_OP, ABORT_COMMIT, ABORT_USER, PENDING, STALE };
char const* out_str(Out o);

struct Tx {
    Kind k{Kind::SHORT};
    std::vector<Op> ops;
    bool user_abort{false};
    bool use_cb{true};
    std::set<int> wp;
    std::set<int> ra_pos, ra_neg;
    // outcome --------------------------------------------------------------
    std::vector<OpRes> res;
    Status begin_s{Status::OK};
    Out out{Out::NONE};
    std::uint64_t begin_c{}, begin_r{}, commit_c{}, commit_r{}, out_t{};
    std::uint64_t step_c{}; ///< when the last step was taken
    std::uint64_t begin_ep{}, commit_ep{};
    Status commit_ret{Status::OK}; ///< commit(token), or what the callback carried
    bool commit_bool{false};
    std::atomic<int> cb_n{0};
    Status cb_s{Status::OK};
    reason_code cb_reason{};
    std::uint64_t marker{0};
    std::uint64_t cb_t{};
    std::string id;
    bool have_info{false};
    reason_code info_reason{};
    bool info_has_key{false}, info_has_st{false};
    std::string info_key, info_st;
    std::vector<std::pair<std::uint64_t, TxState::StateKind>> states;
    std::map<TxState::StateKind, std::uint64_t> seen; ///< when a query that gave this state last began
    int premature_after_start{0}; ///< calls that answered "too early" though the state was STARTED before
    struct Prio {
        std::uint64_t c{}, r{};
        bool highest{};
    };
    std::vector<Prio> prio; ///< LONG: what queries of its priority said
    std::uint64_t durable_seen{0}; ///< durable epoch of the log when the state was first DURABLE
    TxStateHandle sh{undefined_handle};
    std::mutex sm;
    Tx() = default;
    bool ended() const { return out != Out::NONE && out != Out::PENDING; }
    bool committed() const { return out == Out::COMMITTED; }
    bool aborted() const {
        return out == Out::ABORT_OP || out == Out::ABORT_COMMIT || out == Out::ABORT_USER;
    }
};

using StMap = std::map<std::string, std::string>;

/// a durability notification
struct Note {
    std::uint64_t marker{};
    std::uint64_t durable{}; ///< durable epoch of the log store at that moment
};

struct Case {
    std::uint64_t seed{};
    std::uint64_t no{};
    int nst{1};
    std::vector<StMap> init; ///< contents of the storages before
    std::vector<std::unique_ptr<Tx>> txs;
    std::vector<std::size_t> slot; ///< session of each transaction
    std::vector<StMap> fin; ///< contents read at the end
    std::uint64_t init_t{}, fin_c{};
    bool threaded{false};
    bool bypass{false};
    std::string cfg;
    std::vector<std::string> st_names;
    std::vector<standin::log_entry> log; ///< everything logged by the case
    std::vector<Note> notes;
    std::vector<Storage> st_ids;
    std::uint64_t log_base{}, log_top{}; ///< durable epochs before and after
};

/// what kind of cases to produce
struct Profile {
    std::vector<unsigned> kinds{50, 35, 15};                 // SHORT LONG RTX
    std::vector<unsigned> ops{20, 5, 15, 15, 20, 12, 13};    // as OpT
    int min_tx{2}, max_tx{5};
    int min_ops{1}, max_ops{4};
    int min_st{1};
    int max_st{2};
    int min_keys{2}, max_keys{4};
    unsigned init_fill{50};    // percent of the keys present at first
    unsigned user_abort{8};
    unsigned read_area{15};
    unsigned wp_all{40};       // LONG transactions preserving every storage
    unsigned threaded{30};
    unsigned pause{25};        // percent of steps stopped in the middle
    unsigned epoch_wait{10};
    unsigned scan_limit{15};
    unsigned scan_stop{15};
    unsigned scan_r2l{8};
    unsigned final_rtx{8};
    bool states{false};
    bool need_rtx{false};
    unsigned wp_miss{6};       // writes outside of the write preserve
    bool log{false};           // observe the log store
    std::size_t epoch_us{0};   // length of the epochs if given
    bool bypass{true};         // waiting bypass may be on
    unsigned share{12};        // transactions following another one in its session
    bool ring{false};          // each transaction reads what one of them writes, in a circle
};
Profile profile_by_name(std::string const& n);

Case make_case(Profile const& p, std::uint64_t seed, std::uint64_t no);
std::string describe(Case const& c);

/// possible results of replaying a transaction on a state
struct Checker {
    explicit Checker(Case const& c) : c_(c) {}
    /// is there a serial order? relax: ignore absence observations and completeness of scans
    bool serializable(bool with_rtx = true, bool relax = false, bool realtime = true);
    std::uint64_t orders{0};
    std::vector<int> witness;
    /// writes of every key in the order of their log versions: the serial order must agree
    using Chain = std::vector<std::map<std::string, std::vector<std::optional<std::string>>>>;
    Chain const* chain{nullptr};
    std::set<std::pair<int, std::string>> unlogged; ///< (transaction, storage/key) not in the chains
    /// is there a set of transactions, holding all of `required`, that explains these contents by
    /// itself? closed: together with each everything answered before it began
    bool survivable(std::vector<StMap> const& contents, std::set<int> const& required, bool closed);

private:
    using Overlay = std::map<std::string, std::optional<std::string>>;
    using Pos = std::vector<std::map<std::string, std::size_t>>;
    bool dfs(std::vector<StMap>& st, std::uint64_t left, bool relax, Pos const& pos);
    bool sdfs(std::vector<StMap> const& st, std::uint64_t used, std::vector<StMap> const& target);
    void nodes(bool with_rtx, bool realtime);
    bool apply(int ti, std::vector<StMap>& st, unsigned choice, bool relax, std::vector<Overlay>& ov);
    std::uint64_t req_{0};
    bool closed_{false};
    std::set<std::pair<std::uint64_t, std::uint64_t>> tried_;
    Case const& c_;
    std::vector<int> nodes_;
    std::vector<std::uint64_t> pred_;
    std::vector<unsigned> choices_;
};

/// runs cases against the running engine
class Runner {
public:
    explicit Runner(int nst = 5, int nworkers = 8);
    ~Runner();
    void open(std::string const& loc = "");  ///< after start_engine: storages and sessions
    void close(); ///< before stop_engine
    /// false: could not be completed (counted as inconclusive)
    bool run(Case& c, Profile const& p, Rng& r);
    Storage st(int i) const { return st_[static_cast<std::size_t>(i)]; }
    std::string st_name(int i) const { return "S" + std::to_string(i); }
    std::set<std::uint64_t> pause_sites;

    struct Worker {
        std::thread th;
        std::mutex m;
        std::condition_variable cv;
        std::function<void()> job;
        bool stop{false};
        std::atomic<bool> busy{false};
        standin::pause_ctl pc;
        bool armed{false};
        Token tok{};
        void loop();
        void post(std::function<void()> f);
        bool wait(std::uint64_t us);
    };

private:
    bool setup(Case& c);
    bool final_read(Case& c, Kind k, std::vector<StMap>& out, std::uint64_t& call);
    void step(Case& c, Tx& t, Token tok, int pc); ///< one step: -1 begin, n op, size() end
    void do_op(Tx& t, Token tok, Op const& o, OpRes& r);
    void end_tx(Tx& t, Token tok);
    void note_abort(Tx& t, Token tok, Out o);
    void resolve(Tx& t, Token tok); ///< takes the answer of a commit given later
    void poll_state(Tx& t);
    void ask_priority(Tx& t, Token tok);
    std::vector<Storage> st_;
    std::vector<std::unique_ptr<Worker>> ws_;
    Token main_{};
    bool states_{false};
    std::string loc_;
    std::mutex notes_m_;
    std::vector<Note> notes_;

public:
    /// waits until everything logged so far is durable; false: it does not get durable
    bool wait_durable();
    /// contents of all storages
    bool contents(Kind k, std::vector<StMap>& out);
    static std::string marker(); ///< key of the case number in the last storage
    int storages() const { return static_cast<int>(st_.size()); }
};

/// all oracles on a finished case; reports violations
void check_case(Case& c, Profile const& p, std::string const& replay);
/// the log entries, crash images and durability notifications of a finished case
void check_log(Case& c, std::string const& replay);
/// may the contents be what a crash at durable epoch d leaves? (c: the case the crash falls in)
bool crash_state_ok(Case const& c, std::vector<StMap> const& got, std::uint64_t d, std::string& why);
/// transactions reported durable while the log was durable up to d
std::set<int> reported_durable(Case const& c, std::uint64_t d);
/// large objects attached to a value
std::vector<blob_id_type> blobs_of(std::string const& val);
/// signature of the observed history; 0 if the transactions did not interact
std::uint64_t signature(Case const& c);

} // namespace vh
