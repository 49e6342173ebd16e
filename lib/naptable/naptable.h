/* Stand-in for the table missing from the repository: the harness fills it with
   (n-k) E(n-1,k-1)/E(n,k), 1 <= k <= n-1, n <= 1000, row after row. */
extern double naptable[];
