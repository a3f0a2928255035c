// The simulator tested by itself: MPI calls which the library does not use at
// present, but which an edit of it may.  No property of ExSeisDat depends on it.
#include "drv.hh"
#include <mpi.h>
using std::vector;

static void want(bool ok, const char* what)
{
    if (!ok) sim::violation("self-test", what);
}

SCENARIO(CSIM, self_test, 1)
{
    int nr = draw_ranks(6, 1);
    sim::swarm_config(nr);
    vector<vector<int>> cnt(static_cast<size_t>(nr), vector<int>(static_cast<size_t>(nr)));
    for (auto& a : cnt) for (auto& b : a) b = int(W.draw(4));
    int root = int(W.draw(uint32_t(nr)));
    run_job("self", nr, [&](int me) {
        MPI_Comm c = MPI_COMM_WORLD;
        auto val = [](int from, int to, int k) { return from * 10000 + to * 100 + k; };
        // all-to-all, blocking and not
        vector<int> sn = cnt[size_t(me)], sd, rn, rd;
        int s = 0, r = 0;
        for (int i = 0; i < nr; i++) { sd.push_back(s); s += sn[size_t(i)]; rn.push_back(cnt[size_t(i)][size_t(me)]); rd.push_back(r); r += rn.back(); }
        vector<int> sb, rb(size_t(r) + 1, -1);
        for (int i = 0; i < nr; i++) for (int k = 0; k < sn[size_t(i)]; k++) sb.push_back(val(me, i, k));
        sb.push_back(0);
        MPI_Request q[4];
        MPI_Ialltoallv(sb.data(), sn.data(), sd.data(), MPI_INT, rb.data(), rn.data(), rd.data(), MPI_INT, c, &q[0]);
        // gather, all-gather, scatter of unequal pieces; scan and reduction
        vector<int> one(1, me + 1), n1(static_cast<size_t>(nr), 1), d1;
        for (int i = 0; i < nr; i++) d1.push_back(i);
        vector<int> all(static_cast<size_t>(nr), -1), gat(static_cast<size_t>(nr), -1);
        MPI_Iallgatherv(one.data(), 1, MPI_INT, all.data(), n1.data(), d1.data(), MPI_INT, c, &q[1]);
        MPI_Igather(one.data(), 1, MPI_INT, gat.data(), 1, MPI_INT, root, c, &q[2]);
        int sc = -1;
        vector<int> ssrc;
        for (int i = 0; i < nr; i++) ssrc.push_back(i * 7);
        MPI_Iscatter(ssrc.data(), 1, MPI_INT, &sc, 1, MPI_INT, root, c, &q[3]);
        for (int left = 4; left > 0;) { int k, ix[4]; MPI_Testsome(4, q, &k, ix, MPI_STATUSES_IGNORE); if (k == MPI_UNDEFINED) break; left -= k; }
        for (int i = 0; i < nr; i++) for (int k = 0; k < rn[size_t(i)]; k++) want(rb[size_t(rd[size_t(i)] + k)] == val(i, me, k), "Ialltoallv");
        for (int i = 0; i < nr; i++) want(all[size_t(i)] == i + 1, "Iallgatherv");
        if (me == root) for (int i = 0; i < nr; i++) want(gat[size_t(i)] == i + 1, "Igather");
        want(sc == me * 7, "Iscatter");
        int a = -1, b = -1, x = me + 1;
        MPI_Iscan(&x, &a, 1, MPI_INT, MPI_SUM, c, &q[0]);
        MPI_Ireduce(&x, &b, 1, MPI_INT, MPI_SUM, root, c, &q[1]);
        MPI_Waitall(2, q, MPI_STATUSES_IGNORE);
        want(a == (me + 1) * (me + 2) / 2, "Iscan");
        if (me == root) want(b == nr * (nr + 1) / 2, "Ireduce");
        vector<int> many(static_cast<size_t>(nr), me);
        int rs = -1;
        MPI_Reduce_scatter(many.data(), &rs, n1.data(), MPI_INT, MPI_SUM, c);
        want(rs == nr * (nr - 1) / 2, "Reduce_scatter");
        // matched probe and packed message round a ring
        char pk[64];
        int pos = 0;
        double dv = me * 1.5;
        MPI_Pack(&x, 1, MPI_INT, pk, 64, &pos, c);
        MPI_Pack(&dv, 1, MPI_DOUBLE, pk, 64, &pos, c);
        MPI_Isend(pk, pos, MPI_PACKED, (me + 1) % nr, 5, c, &q[0]);
        MPI_Message m;
        MPI_Status st;
        MPI_Mprobe(MPI_ANY_SOURCE, 5, c, &m, &st);
        char up[64];
        int got, p2 = 0, y = 0;
        double dw = 0;
        MPI_Get_count(&st, MPI_PACKED, &got);
        MPI_Mrecv(up, got, MPI_PACKED, &m, &st);
        MPI_Unpack(up, got, &p2, &y, 1, MPI_INT, c);
        MPI_Unpack(up, got, &p2, &dw, 1, MPI_DOUBLE, c);
        MPI_Wait(&q[0], MPI_STATUS_IGNORE);
        want(st.MPI_SOURCE == (me + nr - 1) % nr && y == st.MPI_SOURCE + 1 && dw == st.MPI_SOURCE * 1.5, "Mprobe/Pack");
        // groups
        MPI_Group g, h;
        MPI_Comm_group(c, &g);
        vector<int> ev;
        for (int i = 0; i < nr; i += 2) ev.push_back(i);
        MPI_Group_incl(g, int(ev.size()), ev.data(), &h);
        MPI_Comm sub;
        MPI_Comm_create(c, h, &sub);
        want((sub != MPI_COMM_NULL) == (me % 2 == 0), "Comm_create");
        if (sub != MPI_COMM_NULL) {
            int sr, ss;
            MPI_Comm_rank(sub, &sr);
            MPI_Comm_size(sub, &ss);
            want(sr == me / 2 && ss == int(ev.size()), "Comm_create rank");
            MPI_Comm_free(&sub);
        }
        MPI_Group_free(&g);
        MPI_Group_free(&h);
        // one-sided calls with requests
        vector<int> mem(static_cast<size_t>(nr), -1);
        MPI_Win w;
        MPI_Win_create(mem.data(), MPI_Aint(mem.size() * sizeof(int)), sizeof(int), MPI_INFO_NULL, c, &w);
        MPI_Win_lock_all(0, w);
        vector<MPI_Request> rq(static_cast<size_t>(nr));
        for (int i = 0; i < nr; i++) MPI_Rput(&x, 1, MPI_INT, i, me, 1, MPI_INT, w, &rq[size_t(i)]);
        MPI_Waitall(nr, rq.data(), MPI_STATUSES_IGNORE);
        MPI_Win_flush_all(w);
        MPI_Barrier(c);
        int back = -1;
        MPI_Rget(&back, 1, MPI_INT, root, (me + 1) % nr, 1, MPI_INT, w, &q[0]);
        MPI_Wait(&q[0], MPI_STATUS_IGNORE);
        want(back == (me + 1) % nr + 1, "Rput/Rget");
        MPI_Win_unlock_all(w);
        MPI_Barrier(c);
        MPI_Win_free(&w);
        // files
        MPI_File f;
        MPI_File_open(c, "self.dat", MPI_MODE_CREATE | MPI_MODE_RDWR, MPI_INFO_NULL, &f);
        MPI_File_write_at_all_begin(f, me * 4, &x, 1, MPI_INT);
        MPI_File_write_at_all_end(f, &x, &st);
        MPI_File_sync(f);
        MPI_Barrier(c);
        MPI_File_sync(f);
        int z = -1;
        MPI_File_iread_at_all(f, ((me + 1) % nr) * 4, &z, 1, MPI_INT, &q[0]);
        MPI_Wait(&q[0], MPI_STATUS_IGNORE);
        want(z == (me + 1) % nr + 1, "file");
        MPI_File_close(&f);
    });
    nontrivial();
}
