% Generic Octave call driver: reads a call list, performs every call on the real oct-files and records what happened.
% usage: octave-cli ... --eval "oct_driver ('in','out','stdoutfile')"
function oct_driver (infile, outfile, sofile)
  vars = struct ();   % named session variables: the matrices of the in-place forms
  fi = fopen (infile, 'r');
  fo = fopen (outfile, 'w');
  mt = sigstate ('mt');
  prev = {}; count = 0;
  while true
    l = fgetl (fi);
    if ! ischar (l), break; end
    t = strsplit (l, ' ');
    if ! strcmp (t{1}, 'CALL'), continue; end
    id = t{2}; fn = t{3}; nout = str2double (t{4}); nargs = str2double (t{5}); nenv = str2double (t{6}); back = str2double (t{7}); store = t{8};
    for k = 1:nenv
      e = fgetl (fi);
      p = index (e, '=');
      if p == numel (e)
        unsetenv (e(1:p-1));
      else
        setenv (e(1:p-1), e(p+1:end));
      end
    end
    args = cell (1, nargs); saved = cell (1, nargs); isref = false (1, nargs); isrange = false (1, nargs);
    for k = 1:nargs
      h = fgetl (fi);
      d = fgetl (fi);
      if strcmp (h, 'REF')
        args{k} = vars.(d);
        saved{k} = [];
        isref(k) = true;
      else
        args{k} = mkarg (h, d);
        saved{k} = mkarg (h, d);
        isref(k) = false;
        isrange(k) = strcmp (h, 'RANGE');
      end
    end
    % now and then the caller's own buffers are used again with other content
    count++;
    for k = 1:min (nargs, numel (prev))
      if mod (count, 3) && isfloat (args{k}) && ! isref(k) && ! isrange(k) && strcmp (class (args{k}), class (prev{k})) ...
         && isequal (size (args{k}), size (prev{k})) && numel (args{k}) > 1 && ! iscomplex (args{k}) && ! iscomplex (prev{k})
        sigstate ('refill', prev{k}, args{k});
        args{k} = prev{k};
      end
    end
    prev = {};
    fprintf (fo, 'BEGIN %s\n', id); fflush (fo);
    fflush (stdout);
    s0 = stat (sofile).size;
    o = cell (1, nout); msg = ''; ok = true;
    hs = getenv ('SESSION_HANDLERS');
    if ! isempty (hs), hs = sigstate ('handlers', sscanf (hs, '%f')'); end
    h0 = sigstate (); h1 = []; sched = zeros (1, 5);
    try
      if strcmp (fn, '@set')
        vars.(args{1}) = args{2};
      elseif strcmp (fn, '@get')
        o{1} = vars.(args{1});
      elseif mt
        [ok, msg, o, sched, h1] = sigstate ('call', fn, nout, args);
      elseif nout == 0
        feval (fn, args{:});
      else
        [o{1:nout}] = feval (fn, args{:});
      end
    catch e
      ok = false; msg = e.message;
    end
    ok = (ok == 1);
    if isempty (h1), h1 = sigstate (); end
    if ! isempty (hs), sigstate ('handlers', hs); end
    if ok && ! strcmp (store, '-')
      vars.(store) = o{nout};
    end
    fflush (stdout);
    s1 = stat (sofile).size;
    same = ones (1, nargs);
    for k = 1:nargs
      same(k) = isref(k) || samearg (args{k}, saved{k});
    end
    msg = strrep (strrep (msg, "\n", '\n'), "\r", '');
    fprintf (fo, 'RES %s %d %d %d\n', id, ok, s0, s1);
    fprintf (fo, 'MSG %s\n', msg);
    fprintf (fo, 'SAME%s\n', sprintf (' %d', same));
    fprintf (fo, 'SIG%s %s\n', sprintf (' %.0f', h0), sprintf (' %.0f', h1));
    fprintf (fo, 'SCHED%s\n', sprintf (' %d', sched));
    if ok
      for k = 1:nout, putval (fo, o{k}); end
    end
    if back > 0
      fprintf (fo, 'BACK\n');
      putval (fo, args{back});
    end
    fprintf (fo, 'END\n'); fflush (fo);
    if fn(1) != '@' && nargs > 0 && ! any (isref) && strcmp (store, '-')
      prev = args; prev(isrange) = {''};
    end
  end
  fclose (fo); fclose (fi);
end

function v = mkarg (h, d)
  t = strsplit (h, ' ');
  switch t{1}
    case 'S'
      v = d;
    case {'D', 'F', 'I', 'B', 'C'}
      r = str2double (t{2}); c = str2double (t{3});
      if isempty (d)
        v = zeros (r, c);
      else
        v = reshape (sscanf (d, '%f'), r, c);
      end
      switch t{1}
        case 'F', v = single (v);
        case 'I', v = int32 (v);
        case 'B', v = (v != 0);
        case 'C', v = complex (v, ones (r, c));
      end
    case 'D3'
      v = reshape (sscanf (d, '%f'), str2double (t{2}), str2double (t{3}), str2double (t{4}));
    case 'N'
      v = [];
    case 'CELL'
      v = {1, 2, 3};
    case 'STRUCT'
      v = struct ('a', 1);
    case 'ND'
      v = zeros (2, 3, 2);
    case 'RANGE'
      v = eval (d);
  end
end

function b = samearg (x, y)
  b = strcmp (class (x), class (y)) && isequal (size (x), size (y));
  if b && (isnumeric (x) || islogical (x))
    z = (x == y) | (isnan (x) & isnan (y));
    b = all (z(:));
  elseif b && ischar (x)
    b = strcmp (x, y);
  end
end

function putval (fo, v)
  if ischar (v)
    fprintf (fo, 'VSTR %s\n', strrep (v(:)', "\n", '\n'));
  elseif isnumeric (v) || islogical (v)
    fprintf (fo, 'VAL %s %d %d\n', class (v), size (v, 1), size (v, 2));
    fprintf (fo, ' %.17g', double (v)); fprintf (fo, "\n");
  else
    fprintf (fo, 'VOTHER %s\n', class (v));
  end
end
