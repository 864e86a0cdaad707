import os
C="src/core/"
g={}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else "/verif/tools/seeds","s1.py")).read().split("SEEDS=[")[0])
STEP=PIPE+r'''
// drives single steps of the stages by hand, so that a particular interleaving can be set up
struct Rig{ char fn[32]; Stage1Runner*a; Stage2Runner*b; Stage3Runner*c; BaseRunner::WindowBankEntry*B; Replay rp; typedef BaseRunner::WindowBankState S;
  Rig(int n){ strcpy(fn,"/tmp/demoXXXXXX"); int fd=mkstemp(fn); if(write(fd,"abcdefgh",8)!=8) exit(9); close(fd); a=new Stage1Runner(fn,&rp,64,n); b=new Stage2Runner(fn,64,n,getpid()); c=new Stage3Runner(fn,64,n,getpid()); b->register_listener(cb); c->register_listener(cb); B=(BaseRunner::WindowBankEntry*)a->m_sub_window; a->m_current_bank=-1; a->m_counter=0; a->reset_banks(); b->m_current_bank=-1; c->m_current_bank=-1; c->m_counter=0; }
  ~Rig(){ delete c; delete b; delete a; unlink(fn); } };
'''
SEEDS=[
dict(id="C17-order",property="C17",edits=[(C+"Stage3RunnerNonRecursive.hpp","if (banks[i].number == m_counter) {","if (banks[i].number >= m_counter) {")],
 needs="a later buffer reduced before an earlier one, and met first by the final stage's scan",breaks="the final stage consumes buffers out of order",srcs='',demo=STEP+r'''
int main(){ Rig r(2); r.B[0].number=1; r.B[1].number=0; r.B[0].state.store(Rig::S::Stage2_Unlocked); r.B[1].state.store(Rig::S::Stage2_Unlocked); r.c->acquire_bank(); return r.c->m_current_bank==1?0:1; }
'''),
dict(id="C17-exit",property="C17",edits=[(C+"Stage1Runner.hpp","        if (state != WindowBankState::Free)\n          count++;","        if (state == WindowBankState::Stage1_Unlocked || state == WindowBankState::Stage2_Locked)\n          count++;")],
 needs="the writer finishes while the last buffer is reduced but not yet taken by the final stage",breaks="the end is announced over a buffer that is still in use, and its contents are lost",srcs='',demo=STEP+r'''
static Rig*R; static void*w(void*){ R->a->signal_exit(); return 0; }
int main(){ Rig r(2); R=&r; r.B[1].state.store(Rig::S::Stage2_Unlocked); pthread_t t; pthread_create(&t,0,w,0); usleep(300000); bool bad=r.B[1].state.load()==Rig::S::YouAreDone; r.B[1].state.store(Rig::S::Free); pthread_join(t,0); return bad?1:0; }
'''),
dict(id="C17-xfer",property="C17",edits=[(C+"Stage2RunnerNonRecursive.hpp","    invoke_transfer_listener(m_current_bank, -1);\n    banks[m_current_bank].state.store(WindowBankState::Stage2_Unlocked);","    banks[m_current_bank].state.store(WindowBankState::Stage2_Unlocked);\n    invoke_transfer_listener(m_current_bank, -1);")],
 needs="the final stage takes the buffer between its hand-over and the transfer of its values",breaks="the final stage takes a buffer whose values have not been transferred yet",srcs='',demo=STEP+r'''
static Rig*R; static bool bad=false; static void xf(int i,int n,void*){ if(n==-1&&i>=0) bad=R->B[i].state.load()!=Rig::S::Stage2_Locked; }
int main(){ Rig r(2); R=&r; r.b->register_python_listener(cb,xf); r.B[1].number=0; r.B[1].state.store(Rig::S::Stage1_Unlocked); sem_post(r.b->m_slave_lock); r.b->acquire_bank(); r.b->release_bank(); return bad?1:0; }
'''),
]
