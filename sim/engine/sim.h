/* Control API of the simulator: used by the drivers (C++, Python via cffi, Lua host).
 * Everything random is drawn from choice streams; everything observable is logged and hashed. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* choice streams */
enum { SIM_WORK = 0, SIM_SCHED = 1, SIM_FAULT = 2, SIM_DATA = 3, SIM_STREAMS = 4 };
/* start a run. cfg: "key=value" words: seed=, maxsteps=, faults=0..; replay: path of a replay file or NULL */
void sim_begin(uint64_t seed, char const *config, char const *replay);
/* finish the run: joins tasks, checks the ledger; returns number of violations */
int sim_end(void);
uint64_t sim_seed(void);
uint32_t sim_many(int stream, uint32_t n);             /* a size: mostly 0..n-1, sometimes tens or hundreds */
uint32_t sim_choose(int stream, uint32_t n);           /* 0..n-1, 0 is the simplest choice */
int sim_chance(int stream, uint32_t num, uint32_t den); /* true with num/den, false is simplest */
int sim_config(char const *key, int def);
void sim_config_set(char const *key, int value);
void sim_log(char const *line);
void sim_probe(char const *name);
void sim_violation(char const *oracle, char const *message);
int sim_violated(void);
char const *sim_report(void); /* text report of the run (valid until next call) */
uint64_t sim_hash(void);
uint64_t sim_schedule_hash(void);
double sim_clock(void);
void sim_save(char const *path); /* write the replay file of the current run */
void sim_set_verbose(int v);
void sim_phase(char const *phase);
/* tasks */
void sim_yield(void);
void sim_preempt_point(void);
int sim_spawn(void (*fn)(void *), void *data, char const *role);
void sim_client(void); /* the current task works for a client of its own */
void sim_join(int task);
int sim_task(void);
int sim_tasks_alive(void);
void *sim_mutex_new(void);
void sim_mutex_lock(void *m);
int sim_mutex_trylock(void *m);
void sim_mutex_unlock(void *m);
void sim_block_on(int *flag); /* block the current task until *flag != 0 */
/* operations: one API call of the code under test, with its outcome judged by the engine's own record */
void sim_op_begin(char const *name);
/* expected effects of the op on the engine (journal lines); without a call effects are not checked */
void sim_op_expect(char const *effect);
void sim_op_expect_none(void);
void sim_op_expect_raise(char const *cls);  /* op must raise cls by itself (argument errors) */
void sim_op_may_raise(char const *cls);
void sim_op_note_raised(char const *cls, char const *msg); /* user code inside op raised (id in cls: "user:N") */
/* outcome: cls NULL when it returned normally; returns number of failures the engine recorded in the op */
int sim_op_end(char const *lang, char const *cls, char const *msg);
char const *sim_op_effects(void);           /* journal of the innermost finished op */
char const *sim_last_result(void); /* value returned by the last engine call of this task that reports one */
void sim_api(int on); /* an operation of the interface begins/ends: its memory allocations may fail */
int sim_alloc_fails(void); /* asked by the allocator */
void sim_unicode(int on); /* the strings of the language are Unicode: messages that are not UTF-8 are shown with escapes */
void sim_release_faults(int on); /* suspend/resume failures of closing functions */
int sim_op_failures(void);                  /* failures recorded so far in the current op */
/* callbacks */
int sim_cb_receive(char const *text);       /* user code received this callback; compared with engine truth */
int sim_cb_receive_as(char const *prefix, char const *text);
char const *sim_cb_truth(void);             /* truth text of innermost callback of this task ("" if none) */
int sim_cb_depth(void);
void sim_cb_promise(char const *text);      /* what user code answers; compared with what the engine gets */
/* the innermost callback is about to fail: error code (-1: any) and text the engine must get; mode 0 equal, 1 contained, 2 any text */
void sim_cb_fails(int code, char const *text, int mode);
void sim_cb_optional(void);                 /* (driver) innermost callback need not reach user code */
void sim_cb_expect(char const *kind, int expect); /* whether callbacks of this kind reach user code (2: they must fail by themselves) */
int sim_cb_wants_raise(char const *kind);   /* fault stream: should the user code raise here? */
void sim_faults(int on);                    /* suspend (0) / resume (1) fault injection for this task */
void sim_ledger_check(int final);
char const *sim_truth(char const *what, void const *obj, int64_t a, int64_t b);
uint64_t sim_truth_u(char const *what, void const *obj, int64_t a, int64_t b);
void sim_logger_label(int label); /* label of the logger passed to the next engine call that takes one */
void sim_expect_events(int model, int unsat, int statistics, int finish); /* which events user code of the next solve handles */
void sim_fatal_files(char const *out, char const *save);
/* facts about the search of a handle or control (oracles) */
int sim_search_models(void const *handle);
char const *sim_search_model(void const *handle, int i); /* text of the i-th model the search produced */
int sim_search_complete(void const *handle); /* the search ended by itself: no cancel, interrupt, error, handler stop */
int sim_search_done(void const *handle);
/* applications and scripts, engine side */
int sim_app_exit(void);
char const *sim_app_error(void);
char const *sim_app_name(void);
char const *sim_app_version(void);
void sim_script_define(char const *lang, char const *name, int callable);
char const *sim_script_location(void);
int sim_script_main(char const *lang, void *control);
void sim_script_free(void);
int sim_is(char const *kind, void const *p); /* is this the address of a live engine object of the kind? */
/* ast oracle */
char const *sim_ast_text(void *ast, int with_location);
int sim_ast_refs(void *ast);
int sim_ast_live(void);
#ifdef __cplusplus
}
#endif
#endif
