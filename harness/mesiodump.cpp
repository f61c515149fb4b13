// Loads a mesh by the C API and dumps everything that the API returns, one file per rank.
#include "mesio.h"
#include <cstdio>
#include <cstdlib>
#include <string>

static FILE *out;
template <typename T> static void arr(const char *name, const T *data, long n)
{
    fprintf(out, "%s", name);
    for (long i = 0; i < n; ++i) { fprintf(out, " %.17g", (double)data[i]); }
    fprintf(out, "\n");
}
template <typename... A> static void val(const char *name, A... a)
{
    long v[] = { (long)a... };
    fprintf(out, "%s", name);
    for (size_t i = 0; i < sizeof...(a); ++i) { fprintf(out, " %ld", v[i]); }
    fprintf(out, "\n");
}

int main(int argc, char **argv)
{
    MPI_Init(&argc, &argv);
    int rank, size, mode = atoi(argv[5]);
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    MPI_Comm_size(MPI_COMM_WORLD, &size);
    // 0: world, 1: reversed ranks, 2: the first rank does not participate
    MPI_Comm comm = MPI_COMM_WORLD;
    if (mode) {
        MPI_Comm_split(MPI_COMM_WORLD, mode == 2 && rank == 0 ? MPI_UNDEFINED : 0, mode == 1 ? size - rank : rank, &comm);
    }
    if (comm == MPI_COMM_NULL) {
        MPI_Finalize();
        return 0;
    }
    MPI_Comm_rank(comm, &rank);
    MESIO mesio;
    MESIOInit(comm, 2);
    MESIOLoad(&mesio, (MESIOFormat)atoi(argv[1]), argv[2], (MESIODecomposer)atoi(argv[3]), atoi(argv[4]));
    out = fopen(("api." + std::to_string(rank)).c_str(), "w");
    setvbuf(out, NULL, _IOLBF, 1 << 16);
    {
        MESIOInt nhalo, offset, size, total, *ids, *pos, *dist;
        int *data;
        MESIOReal *coo;
        MESIONodes(mesio, &nhalo, &offset, &size, &total, &ids, &pos, &coo);
        long n = nhalo + size;
        val("NODES", nhalo, offset, size, total);
        arr("IDS", ids, n); arr("POSITION", pos, n); arr("COORDS", coo, 3 * n);
        MESIONodesRanks(mesio, &dist, &data);
        arr("RANKDIST", dist, n + 1); arr("RANKS", data, dist[n]);
        MESIONodesDomains(mesio, &dist, &data);
        arr("NDOMDIST", dist, n + 1); arr("NDOMAINS", data, dist[n]);
    }
    {
        MESIOInt offset, size, total, *type, *dist, *data, *domains, bodies, o, t;
        int *mat, *body;
        MESIOElements(mesio, &offset, &size, &total, &type, &dist, &data);
        val("ELEMENTS", offset, size, total);
        arr("TYPE", type, size); arr("EDIST", dist, size + 1); arr("ENODES", data, dist[size]);
        MESIOElementsDomains(mesio, &domains); arr("DOMAINS", domains, size);
        MESIOElementsMaterials(mesio, &mat); arr("MATERIAL", mat, size);
        MESIOElementsBodies(mesio, &bodies, &body); val("BODIES", bodies); arr("BODY", body, size);
        MESIOElementsNeighbors(mesio, &dist, &data); arr("NEIDIST", dist, size + 1); arr("NEIGHBORS", data, dist[size]);
        for (int i = 0; i < SIZE; ++i) { MESIOElementsCounters(mesio, i, &o, &t); val("COUNTER", i, o, t); }
    }
    for (int r = 0, n = MESIOElementsRegions(mesio); r < n; ++r) {
        const char *name;
        MESIOInt size, *el, nhalo, offset, total, *nodes, *pos, t;
        MESIOElementsRegion(mesio, r, &name, &size, &el);
        fprintf(out, "EREGION %s\n", name);
        arr("ELEMS", el, size);
        MESIOElementsRegionNodes(mesio, r, &nhalo, &offset, &size, &total, &nodes, &pos);
        val("RNODES", nhalo, offset, size, total);
        arr("NODELIST", nodes, nhalo + size); arr("RPOSITION", pos, nhalo + size);
        for (int i = 0; i < SIZE; ++i) { MESIOElementsRegionCounters(mesio, r, i, &offset, &t); val("RCOUNTER", i, offset, t); }
    }
    for (int r = 0, n = MESIOBoundaryRegions(mesio); r < n; ++r) {
        const char *name;
        MESIOInt dim, size, *type, *parent, *dist, *data, nhalo, offset, total, *nodes, *pos, t;
        MESIOBoundaryRegion(mesio, r, &name, &dim, &size, &type, &parent, &dist, &data);
        fprintf(out, "BREGION %s\n", name);
        val("DIM", dim, size);
        if (dim) {
            arr("BTYPE", type, size); arr("PARENT", parent, size); arr("BDIST", dist, size + 1); arr("BNODES", data, dist[size]);
            for (int i = 0; i < SIZE; ++i) { MESIOBoundaryRegionCounters(mesio, r, i, &offset, &t); val("BCOUNTER", i, offset, t); }
        }
        MESIOBoundaryRegionNodes(mesio, r, &nhalo, &offset, &size, &total, &nodes, &pos);
        val("RNODES", nhalo, offset, size, total);
        arr("NODELIST", nodes, nhalo + size); arr("RPOSITION", pos, nhalo + size);
    }
    fprintf(out, "END\n");
    fclose(out);
    MESIOFinalize();
    MPI_Finalize();
    return 0;
}
