entity tb is end;
use std.textio.all;
architecture t of tb is
begin
  process
    variable x : integer := 5;
    variable a : bit_vector(1 to 9);
    variable b : bit_vector(1 to 3);
  begin
    wait for 1 ns;
    x := x + 1;
    write(output, "before" & LF);
    a(x) := '1';
    b(x) := '1';
    write(output, "after " & to_string(b) & LF);
    wait;
  end process;
end;
